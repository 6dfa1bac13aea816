"""Validating recorded runs against the specification (spec/TraceModel.tla)."""
from __future__ import annotations

import shutil
from pathlib import Path

from . import scen
from .tools import Check, Machinery, write_ndjson

CFG = "SPECIFICATION TraceSpec\nVIEW TraceView\nCONSTANT AnyOrder = FALSE\nCHECK_DEADLOCK FALSE\n"


def run_scenarios(chk: Check, scs, exporter="json"):
    """Run the real tool on every scenario; returns observations in order."""
    root = chk.scratch.dir("sc")
    jobs = []
    for n, s in enumerate(scs):
        d = root / str(n)
        d.mkdir()
        scen.materialize(s, d)
        jobs.append({"id": n, "cwd": d, "args": scen.base_args(s, exporter, "out." + exporter)})
    res = chk.jobs(jobs)
    obs = []
    for n, s in enumerate(scs):
        r = res[str(n)]
        f = root / str(n) / ("out." + exporter)
        o = (scen.obs_json if exporter == "json" else scen.obs_yaml)(r["rc"], f)
        o["rc"] = r["rc"]
        o["log"] = r["err"][-1500:] + r["out"][-1500:]
        obs.append(o)
    shutil.rmtree(root, ignore_errors=True)
    return obs


def validate(chk: Check, scs, obs, module="TraceModel", env=None, cfg=CFG):
    """Let TLC judge each (scenario, observation); returns the verdict tuples in order."""

    d = chk.scratch.dir("trace")
    f = d / "trace.ndjson"
    write_ndjson(f, [{"sc": s, "obs": {k: v for k, v in o.items() if k not in ("log", "rc")}} for s, o in zip(scs, obs)])
    e = {"TRACE": str(f)}
    e.update(env or {})
    r = chk.tlc(module, cfg, env=e)
    got = {}
    for p in r.prints:
        if p[0] == "@V":
            if p[1] in got and got[p[1]] != p[2]:
                raise Machinery(f"two verdicts for trace {p[1]}: {got[p[1]]} / {p[2]}")
            got[p[1]] = p[2]
    if set(got) != set(range(1, len(scs) + 1)):
        raise Machinery(f"TLC judged {len(got)} of {len(scs)} traces\n" + r.out[-3000:])
    chk.traces += len(scs)
    return [got[n + 1] for n in range(len(scs))]


def judge(chk: Check, scs, exporter="json", label="", keys=None):
    """Run, validate and report. Returns verdicts."""
    obs = run_scenarios(chk, scs, exporter)
    ver = validate(chk, scs, obs)
    for n, (s, o, v) in enumerate(zip(scs, obs, ver)):
        if v[0] != "ok":
            chk.violation(
                f"{label}: {v[0]} {v[1]} (expected {v[2]}, got {v[3]})",
                {"scenario": {f["name"]: scen.file_text(f) for f in s["files"]},
                 "args": scen.base_args(s, exporter, "out"), "rc": o["rc"], "log": o["log"][-600:]},
                key=keys[n] if keys else None,
            )
        else:
            chk.note("accepted" if v[1] == "done" else "rejected")
            for rule in v[2] if v[1] == "fail" else []:
                chk.rules[rule] = chk.rules.get(rule, 0) + 1
            if n % max(1, len(scs) // 3) == 0:
                chk.sample({"files": {f["name"]: scen.file_text(f) for f in s["files"]}, "verdict": v[1]})
    return ver
