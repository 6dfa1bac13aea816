import json
import random

from .. import binlib, mc
from ..enc import enc_attrs
from ..tools import SEED, THOROUGH

SETTING = {0: "", 1: "write-only", 2: "read-write", 11: "write-only+consent", 12: "read-write+consent"}


def searches(pairs, per=400):
    """histories: a tree, read by both libraries, and queries of both"""
    trees = {}
    for t, q in pairs:
        trees.setdefault(json.dumps(t), []).append(q)
    for t, qs in trees.items():
        nodes = [{"p": n["p"], "a": enc_attrs({k: v for k, v in [("type", n["type"]), ("validate", SETTING[n["v"]])] if v})}
                 for n in json.loads(t)]
        for at in range(0, len(qs), per):
            ev = [{"op": "read", "lib": x, "slot": 1, "file": "a"} for x in ("c", "go")]
            ev += [{"op": "search", "lib": x, "slot": 1, **q} for q in qs[at:at + per] for x in ("c", "go")]
            yield {"files": {"a": nodes}, "events": ev}


def big():
    """more leaves than a search may answer"""
    nodes = [{"p": ["V"], "a": enc_attrs({"type": "branch"})}]
    for b in range(7):
        nodes.append({"p": ["V", f"B{b}"], "a": enc_attrs({"type": "branch"})})
        nodes += [{"p": ["V", f"B{b}", f"N{i}"], "a": enc_attrs({"type": "sensor", "uuid": f"{b}{i:03d}"})} for i in range(230)]
    ev = []
    for x in ("c", "go"):
        ev += [{"op": "read", "lib": x, "slot": 1, "file": "a"}, {"op": "leaves", "lib": x, "slot": 1}, {"op": "uuids", "lib": x, "slot": 1}]
        ev += [{"op": "search", "lib": x, "slot": 1, "root": 0, "segs": q, "limit": n, "any": a, "leaves": lv, "scope": []}
               for q, n, a, lv in ((["V", "*"], 1500, True, True), (["V", "*", "*"], 1500, False, False), (["*", "*", "N229"], 6, True, False),
                                   (["V", "*"], 1300, True, False))]
    return {"files": {"a": nodes}, "events": ev}


def run(chk):
    libs = binlib.build(chk)
    pairs = mc.explore_histories(chk, "MCSearch", ["WalkFinds", "AnswersSane"])
    hist = list(searches(pairs))
    if len(hist) > 600:
        hist = random.Random(SEED).sample(hist, 600)
    binlib.judge(chk, libs, hist, "all small trees")
    chk.note("design_histories_replayed", len(hist))
    binlib.judge(chk, libs, [big()], "more leaves than answers")
    binlib.randoms(chk, libs, 30000 if THOROUGH else 1500, "searches", length=30, p_search=0.6, plain=True)
