"""Histories of runs of the real tool in changing surroundings (spec/TraceRepeat.tla)."""
from __future__ import annotations

import hashlib
import json
import shutil
from pathlib import Path

from . import exporters, scen
from .tools import Check, Machinery, write_ndjson

CFG = "SPECIFICATION RepSpec\nVIEW RepView\nCHECK_DEADLOCK FALSE\n"
SEEDS = ["0", "1", "4711", "random", "2", "99"]
PLACES = {1: "here", 2: "other place/höher"}
PATHS = {"-s", "-l", "-I", "-t", "-q", "-u"}
OUTS = {"-o", "--output-dir", "--target-folder", "--types-output", "--types-out-dir"}


def command(tool, s, opt, ins: str, outs: str):
    """the command line with the input and output files somewhere else"""
    a = exporters.args_of(tool, s, opt)
    for i in range(len(a) - 1):
        if a[i] in PATHS:
            a[i + 1] = ins + a[i + 1]
        elif a[i] in OUTS:
            a[i + 1] = outs + a[i + 1]
    return a


def digests(d: Path):
    out = []
    for f in sorted(d.rglob("*")):
        if f.is_file():
            out.append([str(f.relative_to(d)), hashlib.sha256(f.read_bytes()).hexdigest()[:16]])
    return out


def run_round(chk: Check, root: Path, hists, k):
    """the k-th run of every history, all under the same hash seed"""
    jobs = []
    for n, h in enumerate(hists):
        if k >= len(h["runs"]):
            continue
        r = h["runs"][k]
        base = root / str(n)
        place = base / PLACES[r["place"]]
        ins, outs = place / f"in{r['model']}", place / "out"
        if not ins.exists():
            ins.mkdir(parents=True)
            scen.materialize(h["models"][r["model"]], ins)
        keep = h["tool"] not in ("apigear", "samm", "protobuf")
        if not keep and outs.exists():
            shutil.rmtree(outs)
        outs.mkdir(parents=True, exist_ok=True)
        (base / "elsewhere").mkdir(exist_ok=True)
        cwd, i, o = {"beside": (ins, "", "../out/"),
                     "above": (base, f"{PLACES[r['place']]}/in{r['model']}/", f"{PLACES[r['place']]}/out/"),
                     "absolute": (base / "elsewhere", f"{ins}/", f"{outs}/")}[r["way"]]
        jobs.append({"id": n, "cwd": cwd, "args": command(h["tool"], h["models"][r["model"]], h["opt"], i, o)})
    res = chk.jobs(jobs, preload=exporters.PRELOAD, hashseed=SEEDS[k % len(SEEDS)])
    for j in jobs:
        h, x = hists[int(j["id"])], res[str(j["id"])]
        r = h["runs"][k]
        d = digests(root / str(j["id"]) / PLACES[r["place"]] / "out") if x["rc"] == 0 else []
        if h["tool"] not in ("apigear", "samm", "protobuf"):       # an old types output may lie beside
            names = {exporters.out_name(h["tool"])} | ({"types." + exporters.EXT.get(h["tool"], h["tool"])}
                                                       if h["opt"].get("typesout") else set())
            d = [y for y in d if y[0] in names]
        h["seen"].append({"model": r["model"], "rc": x["rc"], "outs": d})
        h["cmds"].append({"cwd": str(j["cwd"]), "args": j["args"], "seed": SEEDS[k % len(SEEDS)]})
        chk.note(f"{h['tool']}_runs" if x["rc"] == 0 else f"{h['tool']}_refused")


def judge(chk: Check, hists, label):
    """hists: [{"tool", "opt", "models": {1: scenario, 2: scenario}, "runs": [{"model", "place", "way"}]}]"""
    root = chk.scratch.dir("rep")
    for h in hists:
        h["seen"], h["cmds"] = [], []
    for k in range(max(len(h["runs"]) for h in hists)):
        run_round(chk, root, hists, k)
    f = chk.scratch.dir("trace") / "trace.ndjson"
    write_ndjson(f, [{"runs": h["seen"]} for h in hists])
    r = chk.tlc("TraceRepeat", CFG, env={"TRACE": str(f)})
    got = {p[1]: p[2] for p in r.prints if p[0] == "@V"}
    if set(got) != set(range(1, len(hists) + 1)):
        raise Machinery(f"TLC judged {len(got)} of {len(hists)} histories\n" + r.out[-3000:])
    chk.traces += len(hists)
    for n, h in enumerate(hists):
        v = got[n + 1]
        if v[0] != "ok":
            x = int(v[1]) - 1
            chk.violation(f"{label}: {h['tool']}: run {v[1]} differs in {sorted(v[2])}",
                          {"models": {m: {f["name"]: scen.file_text(f) for f in s["files"]} for m, s in h["models"].items()},
                           "runs": h["cmds"][:x + 1], "seen": h["seen"][:x + 1]})
        else:
            chk.note("histories_ok")
            if n % max(1, len(hists) // 3) == 0:
                chk.sample({"tool": h["tool"], "runs": h["runs"], "args": h["cmds"][0]["args"][3:]})
    shutil.rmtree(root)
