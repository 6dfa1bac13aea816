"""Chains of runs in which an export is fed back as a model (spec/VssReload.tla, spec/TraceReload.tla)."""
from __future__ import annotations

import shutil

from . import scen
from .exporters import PRELOAD, load_yaml
from .modelcheck import CFG
from .tools import Check, Machinery, write_ndjson

EXPANDED = [(False, True), (True, True), (True, True)]
BOTH = [(False, True), (False, False), (True, False), (True, True)]


def flagged(s):
    """does any definition exclude a node from instantiation or delete one?"""
    return any(a["n"] in ("instantiate", "delete") for f in s["files"] for e in f["entries"] for a in e["v"]["d"])


def plan_of(s, which):
    steps = EXPANDED if which == 0 else BOTH
    same = [[1, 2], [1, 3]] if which == 0 else [[2, 3]] + ([] if flagged(s) else [[1, 4]])
    return steps, same


def observe(d, rc, rcj):
    import json

    o = {"ok": rc == 0 and rcj == 0, "wrote": (d / "out.yaml").exists() or (d / "out.json").exists(),
         "nodes": [], "types": [], "jnodes": [], "jtypes": []}
    if (rc == 0) != (rcj == 0):
        o["nodes"] = [{"p": [f"yaml exit code {rc}, json exit code {rcj}"], "a": []}]
        o["ok"] = True
    elif o["ok"]:
        o["nodes"] = scen.flatten_yaml(load_yaml(d / "out.yaml") or {})
        o["jnodes"] = scen.flatten_json(json.loads((d / "out.json").read_text()))
        if (d / "types.yaml").exists():
            o["types"] = scen.flatten_yaml(load_yaml(d / "types.yaml") or {})
        if (d / "types.json").exists():
            o["jtypes"] = scen.flatten_json(json.loads((d / "types.json").read_text()))
    return o


def run(chk: Check, lines):
    """lines: [{"sc", "steps": [(reload, expand)], "same"}]; adds the observations"""
    root = chk.scratch.dir("chain")
    live = list(range(len(lines)))
    for n, ln in enumerate(lines):
        (root / str(n)).mkdir()
        scen.materialize(ln["sc"], root / str(n))
        ln["seen"] = []
        ln["log"] = []
    for k in range(max(len(ln["steps"]) for ln in lines)):
        jobs = []
        todo = [n for n in live if k < len(lines[n]["steps"])]
        for n in todo:
            ln, d = lines[n], root / str(n)
            reload, expand = ln["steps"][k]
            s = dict(ln["sc"], expand=expand)
            pre = s["main"].rsplit("/", 1)[0] + "/" if "/" in s["main"] else ""
            if reload:
                shutil.copy(d / "out.yaml", d / (pre + "again.yaml"))
                s.update(main=pre + "again.yaml", overlays=[], idirs=[])
                if s["types"]:
                    shutil.copy(d / "types.yaml", d / "typesagain.yaml")
                    s["types"] = ["typesagain.yaml"]
            for f in ("out.yaml", "out.json", "types.yaml", "types.json"):
                (d / f).unlink(missing_ok=True)
            for t in ("yaml", "json"):
                a = scen.base_args(s, t, "out." + t)
                if s["types"]:
                    a += ["--types-output", "types." + t]
                jobs.append({"id": f"{n}{t}", "cwd": d, "args": a})
        res = chk.jobs(jobs, preload=PRELOAD)
        live = []
        for n in todo:
            y, j = res[f"{n}yaml"], res[f"{n}json"]
            o = observe(root / str(n), y["rc"], j["rc"])
            lines[n]["seen"].append(o)
            lines[n]["log"].append((y["err"] + y["out"])[-700:])
            if o["ok"]:
                live.append(n)
    shutil.rmtree(root, ignore_errors=True)


def judge(chk: Check, scs, which, label):
    lines = []
    for n, s in enumerate(scs):
        steps, same = plan_of(s, which if which is not None else n % 2)
        lines.append({"sc": s, "steps": steps, "same": same})
    run(chk, lines)
    f = chk.scratch.dir("trace") / "trace.ndjson"
    none = {"ok": False, "wrote": False, "nodes": [], "types": [], "jnodes": [], "jtypes": []}
    write_ndjson(f, [{"sc": ln["sc"], "same": ln["same"],
                      "steps": [{"reload": r, "expand": x, "obs": ln["seen"][k] if k < len(ln["seen"]) else none}
                                for k, (r, x) in enumerate(ln["steps"])]} for ln in lines])
    r = chk.tlc("TraceReload", CFG + "INVARIANT RoundTrip\n", env={"TRACE": str(f)})
    chk.design(r, "exporting and loading again")
    got = {p[1]: p[2] for p in r.prints if p[0] == "@V"}
    if set(got) != set(range(1, len(lines) + 1)):
        raise Machinery(f"TLC judged {len(got)} of {len(lines)} chains\n" + r.out[-3000:])
    chk.traces += len(lines)
    for n, ln in enumerate(lines):
        v = got[n + 1]
        if v[0] != "ok":
            chk.violation(f"{label}: {v[0]} {v[1]} (expected {v[2]}, got {v[3]})",
                          {"scenario": {f["name"]: scen.file_text(f) for f in ln["sc"]["files"]},
                           "args": scen.base_args(ln["sc"], "yaml", "out.yaml"), "steps": ln["steps"], "log": ln["log"][-1]})
        else:
            chk.note("chains_done" if v[1] == "done" else "chains_rejected")
            chk.note("chain_steps", v[2])
            if n % max(1, len(lines) // 3) == 0:
                chk.sample({"steps": ln["steps"], "files": {f["name"]: scen.file_text(f) for f in ln["sc"]["files"]}})
