"""Histories of an id export, edits to the model, and a validating run (spec/VssValidate.tla)."""
from __future__ import annotations

import json
import random
import re
import shutil

import yaml

from . import scen
from .enc import dec
from .exporters import PRELOAD, load_yaml
from .modelcheck import CFG
from .tools import SEED, THOROUGH, Check, Machinery, write_ndjson

NODOC = {"kind": "", "p": [], "to": []}
MSG = [
    ("semantic", r"SEMANTIC NAME CHANGE or PATH CHANGE for '([^']+)', it used to be '([^']+)'\."),
    ("breaking", r"BREAKING CHANGE: There was a breaking change for '([^']+)' which"),
    ("added", r"ADDED ATTRIBUTE: The node '([^']+)' was added"),
    ("deleted", r"DELETED ATTRIBUTE: '([^']+)' was not matched"),
    ("description", r"DESCRIPTION MISMATCH: The description of (\S+) has changed"),
    ("deprecation", r"DEPRECATION MSG CHANGE: Deprecation message for '([^']+)' was"),
]


def reports(log):
    out = []
    for line in log.splitlines():
        if "[Validation]" not in line:
            continue
        for kind, rx in MSG:
            m = re.search(rx, line)
            if m:
                out.append({"p": [kind, *m.groups()], "a": []})
                break
        else:
            out.append({"p": ["unknown", line.strip()[:120]], "a": []})
    return out


def pre_of(s):
    return s["main"].rsplit("/", 1)[0] + "/" if "/" in s["main"] else ""


def args_of(s, out, case):
    return scen.base_args(s, "id", out) + (["--case-sensitive"] if case else [])


def doctor(path, doc):
    data = load_yaml(path) or {}
    k = ".".join(doc["p"])
    if k in data:
        if doc["kind"] == "dup":
            data[".".join(doc["to"])] = dict(data[k])
        elif doc["kind"] == "nouid":
            del data[k]["staticUID"]
    path.write_text(yaml.dump(data, Dumper=scen.Dumper, allow_unicode=True))


def run(chk: Check, lines):
    """lines: {"sc", "plan"}; adds old and obs"""
    root = chk.scratch.dir("va")
    jobs = []
    for n, ln in enumerate(lines):
        for k, s in (("old", ln["sc"]), ("new", ln["plan"]["later"])):
            d = root / f"{n}{k}"
            d.mkdir()
            scen.materialize(s, d)
        jobs.append({"id": n, "cwd": root / f"{n}old", "args": args_of(ln["sc"], "out.yaml", ln["plan"]["oldcase"])})
    res = chk.jobs(jobs, preload=PRELOAD)
    jobs = []
    for n, ln in enumerate(lines):
        out = root / f"{n}old" / "out.yaml"
        ln["old"] = {"ok": res[str(n)]["rc"] == 0, "wrote": out.exists()}
        ln["log"] = (res[str(n)]["err"] + res[str(n)]["out"])[-800:]
        ln["obs"] = {"ok": False, "wrote": False, "reports": [], "nodes": []}
        p = ln["plan"]
        if not out.exists():
            continue
        d = root / f"{n}new"
        val = pre_of(p["later"]) + "val.vspec"
        shutil.copy(out, d / val)
        if p["doctor"]["kind"]:
            doctor(d / val, p["doctor"])
        jobs.append({"id": n, "cwd": d, "args": args_of(p["later"], "out.yaml", p["casesens"]) +
                     ["--validate-static-uid", val] + (["--validate-only"] if p["only"] else [])})
    res = chk.jobs(jobs, preload=PRELOAD, columns=4000)
    for j in jobs:
        ln, r, out = lines[int(j["id"])], res[j["id"]], j["cwd"] + "/out.yaml"
        out = root / f"{j['id']}new" / "out.yaml"
        o = ln["obs"]
        o.update(ok=r["rc"] == 0, wrote=out.exists(), reports=reports(r["out"] + r["err"]))
        ln["log"] = re.sub(r"\s{3,}", " | ", r["err"] + r["out"])[-1500:]
        if o["ok"] and out.exists():
            o["nodes"] = scen.flatten_yaml(load_yaml(out) or {})
    shutil.rmtree(root, ignore_errors=True)


def judge(chk: Check, lines, label):
    run(chk, lines)
    f = chk.scratch.dir("trace") / "trace.ndjson"
    write_ndjson(f, [{k: ln[k] for k in ("sc", "plan", "old", "obs")} for ln in lines])
    r = chk.tlc("TraceValidate", CFG, env={"TRACE": str(f)})
    got = {p[1]: p[2] for p in r.prints if p[0] == "@V"}
    if set(got) != set(range(1, len(lines) + 1)):
        raise Machinery(f"TLC judged {len(got)} of {len(lines)} histories\n" + r.out[-3000:])
    chk.traces += len(lines)
    for n, ln in enumerate(lines):
        v, p = got[n + 1], ln["plan"]
        if v[0] != "ok":
            chk.violation(f"{label}: {v[0]} {v[1]} (expected {v[2]}, got {v[3]})",
                          {"earlier": {f["name"]: scen.file_text(f) for f in ln["sc"]["files"]},
                           "later": {f["name"]: scen.file_text(f) for f in p["later"]["files"]},
                           "args": args_of(p["later"], "out.yaml", p["casesens"]), "doctor": p["doctor"], "log": ln["log"]})
        else:
            chk.note("histories_" + ("validated" if v[1] == "done" else "rejected"))
            for x in v[2] if v[1] == "fail" else []:
                chk.rules[x] = chk.rules.get(x, 0) + 1
            for x in ln["obs"]["reports"]:
                chk.note("reported_" + x["p"][0])
            if n % max(1, len(lines) // 3) == 0:
                chk.sample({"later": {f["name"]: scen.file_text(f) for f in p["later"]["files"]}, "reports": [x["p"] for x in ln["obs"]["reports"]]})


def catalogue(chk: Check, cap):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT AnyOrder = FALSE\nVIEW EditView\n"
           f"CONSTANT Size = {2 if THOROUGH else 1}\n"
           "INVARIANT NeverFails\nINVARIANT ReportsFollowEdits\nINVARIANT Identical\n")
    r = chk.tlc("MCValidate", cfg, heap="8g")
    chk.design(r, "MCValidate")
    items = sorted({(p[1], p[2]) for p in r.prints if p[0] == "@H"})
    if not items:
        raise Machinery("MCValidate: no case reached the end\n" + r.out[-2000:])
    chk.note("design_invariants", 3)
    chk.note("design_cases", len(items))
    if cap and len(items) > cap and not THOROUGH:
        items = random.Random(SEED).sample(items, cap)
    lines = [{"sc": json.loads(a), "plan": json.loads(b)} for a, b in items]
    for k in range(0, len(lines), 1000):
        judge(chk, lines[k:k + 1000], "catalogue of edits")


# ---------------------------------------------------------------------------
# random histories


def edited(rng, s, defs_at, gen):
    """a later version of scenario s: random edits to its main file"""
    f = next(x for x in s["files"] if x["name"] == s["main"])
    root = min((e["p"] for e in f["entries"]), key=len)
    names = {".".join(e["p"]) for e in f["entries"]}
    fresh = 0

    def attrs(e):
        return dec(e["v"])

    def store(e, a):
        from .enc import enc
        e["v"] = enc(a)

    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        e = rng.choice(f["entries"])
        a = attrs(e)
        c = rng.randrange(12)
        k = ".".join(e["p"])
        if c == 0:
            a["description"] = gen.text()
        elif c == 1:
            a[rng.choice(["comment", "e1"])] = gen.text()
        elif c == 2:
            a["deprecation"] = gen.text()
        elif c == 3 and "datatype" in a:
            a["type"] = rng.choice(["sensor", "actuator", "attribute"])
        elif c == 4 and "datatype" in a:
            for x in ("min", "max", "default", "allowed", "unit", "arraysize"):
                a.pop(x, None)
            a["datatype"] = rng.choice(["uint8", "string", "float[]"])
        elif c == 5 and "min" in a:
            a["min"] -= 0 if a["min"] <= 0 else 1
        elif c == 6 and len(e["p"]) > 1:        # rename or move, with or without its former name
            fresh += 1
            old = list(e["p"])
            parents = [x["p"] for x in f["entries"] if attrs(x).get("type") == "branch" and x["p"][: len(old)] != old]
            new = rng.choice([old[:-1], rng.choice(parents)]) + [f"Ren{fresh}"]
            keep = rng.random() < 0.7
            for x in f["entries"]:
                if x["p"][: len(old)] == old:
                    y = attrs(x)
                    if keep:
                        y["fka"] = ([] if rng.random() < 0.6 else y.get("fka", [])) + [".".join(x["p"])]
                        if rng.random() < 0.2:
                            y["fka"] = ["Older.Name"] + y["fka"]
                        store(x, y)
                    x["p"] = new + x["p"][len(old):]
            continue
        elif c == 7 and len(e["p"]) > 1:
            f["entries"] = [x for x in f["entries"] if x["p"][: len(e["p"])] != e["p"]]
            continue
        elif c == 8:
            b = [x["p"] for x in f["entries"] if attrs(x).get("type") == "branch"]
            fresh += 1
            store_p = rng.choice(b) + [f"Add{fresh}"]
            from .enc import enc
            f["entries"].append({"p": store_p, "v": enc(gen.leaf())})
            continue
        elif c == 9:
            a["fka"] = [rng.choice(sorted(names)), "Older.Name"][: rng.randint(1, 2)]
        elif c == 10 and "allowed" in a and isinstance(a["allowed"], list) and "default" not in a:
            a["allowed"] = a["allowed"][::-1]
        elif c == 11:
            a.pop(rng.choice(["deprecation", "fka", "unit", "comment"]), None)
        store(e, a)
    f["entries"].sort(key=lambda x: len(x["p"]))
    f.pop("incpos", None)
    return s


def history(rng, **features):
    import copy

    from . import gen
    g = gen.Gen(rng, **features)
    s = g.scenario()
    s.update(uuid=False, extall=False, exts=sorted(set(s["exts"]) | set(rng.sample(["staticUID", "e1"], 2 if rng.random() < 0.3 else 1))), expand=rng.random() < 0.8)
    later = copy.deepcopy(s)
    edited(rng, later, None, g)
    if rng.random() < 0.1:
        later["exts"] = []
    if rng.random() < 0.25:
        later["strict"] = True
    later["expand"] = s["expand"] if rng.random() < 0.9 else True
    cs = rng.random() < 0.3
    doc = dict(NODOC)
    if rng.random() < 0.15:
        f = next(x for x in s["files"] if x["name"] == s["main"])
        e = rng.choice(f["entries"])
        doc = {"kind": rng.choice(["dup", "nouid"]), "p": e["p"], "to": [f["entries"][0]["p"][0], "Dup0"]}
        if len(e["p"]) == 1 and doc["kind"] == "dup":
            doc = dict(NODOC)
    return {"sc": s, "plan": {"later": later, "oldcase": cs if rng.random() < 0.9 else not cs, "casesens": cs,
                              "only": rng.random() < 0.3, "doctor": doc}}


def randoms(chk: Check, quick, thorough, **features):
    n = thorough if THOROUGH else quick
    for done in range(0, n, 600):
        lines = [history(random.Random(f"validate/{SEED}/{i}"), **features) for i in range(done, min(done + 600, n))]
        judge(chk, lines, "random history")
        chk.note("random_histories", len(lines))
        if chk.violations:
            return
