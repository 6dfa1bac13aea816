"""Output files before and after a run (spec/VssFiles.tla)."""
from __future__ import annotations

import json
import shutil
from pathlib import Path

from . import exporters, mc, scen
from .enc import dec
from .modelcheck import CFG
from .tools import Check, Machinery, write_ndjson

OLD = b"something from an earlier run\n" * 400
FILES_OUT = ("json", "yaml", "csv", "id", "jsonschema", "franca", "protobuf", "ddsidl", "graphql", "go", "tree", "binary")
NOFAULT = {"kind": "none", "file": ""}


def snapshot(p: Path):
    if p.is_symlink():
        return b""
    if p.is_dir():
        return {str(x.relative_to(p)): x.read_bytes() for x in sorted(p.rglob("*")) if x.is_file()}
    return p.read_bytes() if p.exists() else None


def outputs(tool, names):
    ext = exporters.EXT.get(tool, tool)
    return {n: {"out": "out." + ext, "types": "types." + ext}[n] for n in names}


def packages(s):
    """the files the protobuf exporter keeps structs in"""
    out = set()
    for f in s["files"]:
        if f["name"] in s["types"]:
            for e in f["entries"]:
                v = dec(e["v"])
                if isinstance(v, dict) and v.get("type") == "struct":
                    out.add("/".join(e["p"][:-1] + [e["p"][-2] if len(e["p"]) > 1 else "x"]) + ".proto")
    return out


def place_old(tool, s, d: Path, n, path):
    p = d / path
    if n == "types" and tool == "protobuf":
        for x in packages(s) or {"x.proto"}:
            (p / x).parent.mkdir(parents=True, exist_ok=True)
            (p / x).write_bytes(OLD)
    elif tool in ("apigear", "samm"):
        p.mkdir()
        (p / "kept.txt").write_bytes(OLD)
    else:
        p.write_bytes(OLD)


VALFILE = "earlier/ids.yaml"
EARLIER = "E: {type: branch, description: e, staticUID: '0x00000001'}\nE.X: {type: sensor, datatype: uint8, description: x, staticUID: '0x00000002'}\n"


def break_input(tool, fault, d: Path):
    p = d / fault["file"]
    if fault["kind"].startswith("earlier"):      # the file to validate static ids against
        p = d / VALFILE
        p.parent.mkdir()
        bad = {"datatype: uint8": "datatype: nonsense", "E.X": "E.B.X", "type: sensor, ": ""}
        text = EARLIER
        if fault["kind"] == "earlier-bad":
            old = list(bad)[int(fault["file"])]
            text = text.replace(old, bad[old])
        elif fault["kind"] == "earlier-syntax":
            text = "a: [b\n" + text
        if fault["kind"] != "earlier-missing":
            p.write_text(text)
        return
    if fault["kind"] == "full":
        (d / outputs(tool, [fault["file"]])[fault["file"]]).symlink_to("/dev/full")
        return
    if fault["kind"] == "syntax":
        p.write_text(p.read_text() + "\n: : [bad\n{\n")
    elif fault["kind"] == "list":
        p.write_text("- a\n- b\n")
    elif fault["kind"] == "missing":
        p.unlink()


def args_of(tool, s, opt, fault):
    extra = ["-a", "bogus"] if fault["kind"] == "option" else []
    if fault["kind"].startswith("earlier"):
        extra = ["--validate-static-uid", VALFILE]
    return exporters.args_of(tool, s, opt) + extra


def run(chk: Check, items):
    """items: (tool, scenario, options, fault, before: {name: state}) -> observations"""
    root = chk.scratch.dir("fi")
    jobs, pre = [], {}
    for n, (tool, s, opt, fault, before) in enumerate(items):
        for ref in (True, False) if "old" in before.values() else (True,):
            d = root / f"{n}{'r' if ref else ''}"
            d.mkdir()
            scen.materialize(s, d)
            break_input(tool, fault, d)
            ins = {x: x.read_bytes() for x in d.rglob("*") if x.is_file()}
            if not ref:
                for o, path in outputs(tool, before).items():
                    if before[o] == "old" and not (fault["kind"] == "full" and fault["file"] == o):
                        place_old(tool, s, d, o, path)
            pre[d.name] = (ins, {o: snapshot(d / path) for o, path in outputs(tool, before).items()})
            jobs.append({"id": d.name, "cwd": d, "args": args_of(tool, s, opt, fault)})
    res = chk.jobs(jobs, preload=exporters.PRELOAD)
    obs = []
    for n, (tool, s, opt, fault, before) in enumerate(items):
        ref, key = f"{n}r", str(n) if "old" in before.values() else f"{n}r"
        d, r = root / key, res[key]
        ins, was = pre[key]
        after, same = [], True
        for o, path in outputs(tool, before).items():
            now = snapshot(d / path)
            st = "absent" if now is None or now == {} else "old" if now == was[o] else "new"
            if fault["kind"] == "full" and fault["file"] == o:
                st = before[o]
            after.append({"n": o, "s": st})
            if st == "new" and r["rc"] == 0:
                same = same and now == snapshot(root / ref / path) and len(now) > 0
        obs.append({
            "ok": r["rc"] == 0, "before": [{"n": k, "s": v} for k, v in before.items()], "after": after, "same": same,
            "inputs": all(x.exists() and x.read_bytes() == c for x, c in ins.items()),
            "rc": r["rc"], "log": r["err"][-800:] + r["out"][-800:],
        })
    shutil.rmtree(root, ignore_errors=True)
    return obs


def judge(chk: Check, items, label):
    obs = run(chk, items)
    f = chk.scratch.dir("trace") / "trace.ndjson"
    write_ndjson(f, [{"sc": s, "tool": t, "opt": {k: v for k, v in o.items() if k not in ("args", "cmd", "pretty")},
                      "fault": fa, "obs": {k: v for k, v in b.items() if k not in ("log", "rc")}}
                     for (t, s, o, fa, _), b in zip(items, obs)])
    r = chk.tlc("TraceFiles", CFG, env={"TRACE": str(f)})
    got = {}
    for p in r.prints:
        if p[0] == "@V":                       # a run may have several ends: one of them has to be what was observed
            if p[1] not in got or p[2][0] == "ok":
                got[p[1]] = p[2]
    if set(got) != set(range(1, len(items) + 1)):
        raise Machinery(f"TLC judged {len(got)} of {len(items)} traces\n" + r.out[-3000:])
    chk.traces += len(items)
    for n, ((tool, s, opt, fault, before), o) in enumerate(zip(items, obs)):
        v = got[n + 1]
        if v[0] != "ok":
            chk.violation(
                f"{label}: {tool}: {v[1]} {v[3]} (rules broken: {v[2]}); before {before}, after "
                f"{ {x['n']: x['s'] for x in o['after']} }, exit code {o['rc']}",
                {"scenario": {f["name"]: scen.file_text(f) for f in s["files"]}, "fault": fault,
                 "args": args_of(tool, s, opt, fault), "log": o["log"][-600:]})
        else:
            chk.note(f"{tool}_{'accepted' if v[1] == 'ok' else 'rejected'}")
            for rule in v[2]:
                chk.rules[rule] = chk.rules.get(rule, 0) + 1
            if n % max(1, len(items) // 3) == 0:
                chk.sample({"tool": tool, "args": args_of(tool, s, opt, fault)[2:], "before": before, "status": v[1],
                            "files": {f["name"]: scen.file_text(f) for f in s["files"]}})


INV = ["FailedLeavesNothing", "SuccessWritesAll", "TouchedWhenAccepted", "BrokenNeverOk", "GoodNeverFails"]


def explore(chk: Check):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT AnyOrder = FALSE\nCONSTANT Size = 1\n"
    r = chk.tlc("MCFiles", cfg + "".join(f"INVARIANT {i}\n" for i in INV))
    chk.design(r, "MCFiles")
    seen = {tuple(p[1:]): 1 for p in r.prints if p[0] == "@F"}
    chk.note("design_invariants", len(INV))
    chk.note("design_cases", len(seen))
    items = []
    for sc, tool, opt, before in sorted(seen):
        s = json.loads(sc)
        fault = s.pop("fault")
        items.append((tool, s, dict(json.loads(opt), pretty=False), fault, json.loads(before)))
    return items
