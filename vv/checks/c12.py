import random

from .. import exporters, files, gen
from ..tools import SEED, THOROUGH

BAD = dict(types=0.3, p_bad=0.5, p_instances=0.2, p_ext=0.2, p_null=0.2, overlays=(0, 2), p_special=0.1, p_delete=0.1,
           p_include=0.2, p_badname=0.02, options=True, p_roots=0.05, p_missing=0.1, p_misplace=0.1, p_badref=0.1, p_badunit=0.1)
GOOD = dict(types=0.3, p_instances=0.2, p_ext=0.2, overlays=(0, 1), p_delete=0.1, p_include=0.1)


def one(i):
    rng = random.Random(f"c12/{SEED}/{i}")
    s = gen.Gen(rng, **(BAD if rng.random() < 0.7 else GOOD)).scenario()
    tool = exporters.ALL[i % len(exporters.ALL)]
    opt = exporters.options(typesout=rng.random() < 0.6 or tool == "protobuf")
    s["extall"] = False
    exporters.fit(tool, s, opt)
    fault = dict(files.NOFAULT)
    if rng.random() < 0.1:
        given = [s["main"]] + s["overlays"] + s["types"] + s["units"] + s["quantities"]
        fault = {"kind": rng.choice(["syntax", "missing", "list", "option"]), "file": rng.choice(given)}
    if fault["kind"] == "none" and tool == "id" and rng.random() < 0.6:
        kind = rng.choice(["earlier", "earlier", "earlier-bad", "earlier-missing", "earlier-syntax"])
        fault = {"kind": kind, "file": rng.choice("012") if kind == "earlier-bad" else ""}
    elif fault["kind"] == "none" and tool in files.FILES_OUT and rng.random() < 0.1:
        fault = {"kind": "full", "file": rng.choice(["out", "types"] if opt["typesout"] and tool != "protobuf" else ["out"])}
    before = {n: rng.choice(["absent", "old"]) for n in (["out", "types"] if opt["typesout"] else ["out"])}
    return tool, s, opt, fault, before


def run(chk):
    items = files.explore(chk)
    for k in range(0, len(items), 1300):
        files.judge(chk, items[k:k + 1300], "design")
    n = 9000 if THOROUGH else 900
    for k in range(0, n, 900):
        files.judge(chk, [one(i) for i in range(k, min(n, k + 900))], "random")
        chk.note("random_scenarios", min(900, n - k))
        if chk.violations:
            return
