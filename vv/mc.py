"""Exhaustive design checking (spec/MC*.tla) and replay of every explored scenario into the real tool."""
from __future__ import annotations

import json
import random

from . import modelcheck, scen
from .tools import SEED, THOROUGH, Check, Machinery


def canon_v(v):
    return [v["k"], v["s"], [canon_v(x) for x in v["l"]], sorted([e["n"], canon_v(e["v"])] for e in v["d"])]


def canon_nodes(ns):
    return {".".join(n["p"]): {e["n"]: canon_v(e["v"]) for e in n["a"]} for n in ns}


def diff(exp, got, what):
    e, g = canon_nodes(exp), canon_nodes(got)
    for k in e:
        if k not in g:
            return f"{what} {k} missing"
    for k in g:
        if k not in e:
            return f"{what} {k} surplus"
        for a in set(e[k]) | set(g[k]):
            if e[k].get(a) != g[k].get(a):
                return f"{what} {k}: {a} expected {e[k].get(a)} got {g[k].get(a)}"
    return None


def explore(chk: Check, module: str, invariants, consts=None, size=None, any_order=True, heap="8g", timeout=840):
    size = size or (2 if THOROUGH else 1)
    cfg = (
        f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT AnyOrder = {'TRUE' if any_order else 'FALSE'}\n"
        f"CONSTANT Size = {size}\nINVARIANT TypeOK\nINVARIANT FailsWithReason\n"
    )
    cfg += "".join(f"INVARIANT {i}\n" for i in invariants)
    cfg += "".join(f"CONSTANT {c} = {v}\n" for c, v in (consts or {}).items())
    r = chk.tlc(module, cfg, heap=heap, timeout=timeout)
    chk.design(r, module)
    out = {}
    for p in r.prints:
        if p[0] == "@S":
            if p[1] in out and out[p[1]] != p[2]:
                raise Machinery(f"{module}: outcome depends on the order of actions for {p[1]}")
            out[p[1]] = p[2]
    if not out:
        raise Machinery(f"{module}: no scenario reached the end\n" + r.out[-2000:])
    chk.note("design_invariants", len(invariants))
    chk.note("design_scenarios", len(out))
    return [(json.loads(a), json.loads(b)) for a, b in out.items()]


def compare(s, o, exp):
    """None, or what is wrong with observation o of scenario s whose specified outcome is exp"""
    if exp["ok"] and not o["ok"]:
        return "rejected a model that is valid: " + o["log"].strip()[-300:]
    if not exp["ok"] and o["ok"]:
        return f"accepted a model that breaks rule(s) {sorted(exp['err'])}"
    if not exp["ok"]:
        return "wrote output although it failed" if o["wrote"] else None
    return diff(exp["nodes"], o["nodes"], "node") or diff(exp["types"], o["types"], "type")


def explore_and_replay(chk: Check, module, invariants, cap=None, exporter="json", label=None, **kw):
    pairs = explore(chk, module, invariants, **kw)
    if cap and len(pairs) > cap:
        random.Random(SEED).shuffle(pairs)
        pairs = pairs[:cap]
    scs = [p[0] for p in pairs]
    obs = modelcheck.run_scenarios(chk, scs, exporter)
    chk.note("design_scenarios_replayed", len(scs))
    chk.traces += len(scs)
    for (s, exp), o in zip(pairs, obs):
        bad = compare(s, o, exp)
        if bad:
            chk.violation(
                f"{label or module}: {bad}",
                {"scenario": {f["name"]: scen.file_text(f) for f in s["files"]},
                 "args": scen.base_args(s, exporter, "out"), "rc": o["rc"]},
            )
        else:
            chk.note("accepted" if exp["ok"] else "rejected")
            for r in exp["err"]:
                chk.rules[r] = chk.rules.get(r, 0) + 1
    s = scs[len(scs) // 2]
    chk.sample({"module": module, "files": {f["name"]: scen.file_text(f) for f in s["files"]}})
    return pairs, obs


def explore_cases(chk: Check, module, invariants, props=(), consts=None, size=None, view=None, heap="8g", timeout=840):
    """Exhaustive checking of an exporter family; returns the (tool, scenario, options) cases TLC went through."""
    size = size or (2 if THOROUGH else 1)
    cfg = f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT AnyOrder = FALSE\nCONSTANT Size = {size}\n"
    cfg += "".join(f"INVARIANT {i}\n" for i in invariants) + "".join(f"PROPERTY {i}\n" for i in props)
    cfg += "".join(f"CONSTANT {c} = {v}\n" for c, v in (consts or {}).items())
    if view:
        cfg += f"VIEW {view}\n"
    r = chk.tlc(module, cfg, heap=heap, timeout=timeout)
    chk.design(r, module)
    seen = {}
    for p in r.prints:
        if p[0] == "@X":
            seen[(p[1], p[2], p[3])] = 1
    if not seen:
        raise Machinery(f"{module}: no case reached the end\n" + r.out[-2000:])
    chk.note("design_invariants", len(invariants) + len(props))
    chk.note("design_cases", len(seen))
    return [(t, json.loads(s), json.loads(o)) for s, t, o in sorted(seen)]


def explore_and_judge(chk: Check, module, invariants, cap=None, tweak=None, label=None, **kw):
    from . import exporters

    items = explore_cases(chk, module, invariants, **kw)
    if cap and len(items) > cap:
        items = random.Random(SEED).sample(items, cap)
    if tweak:
        for n, it in enumerate(items):
            tweak(n, *it)
    for k in range(0, len(items), 1500):
        exporters.judge(chk, items[k:k + 1500], label or module)
    chk.note("design_cases_replayed", len(items))
    return items


def explore_histories(chk: Check, module, invariants, props=(), consts=None, size=None, heap="8g", timeout=840):
    """Exhaustive checking of a state machine that prints what it went through (@H)."""
    size = size or (2 if THOROUGH else 1)
    cfg = f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Size = {size}\n"
    cfg += "".join(f"INVARIANT {i}\n" for i in invariants) + "".join(f"PROPERTY {i}\n" for i in props)
    cfg += "".join(f"CONSTANT {c} = {v}\n" for c, v in (consts or {}).items())
    r = chk.tlc(module, cfg, heap=heap, timeout=timeout)
    chk.design(r, module)
    out = sorted({tuple(p[1:]) for p in r.prints if p[0] == "@H"})
    if not out:
        raise Machinery(f"{module}: no history reached the end\n" + r.out[-2000:])
    chk.note("design_invariants", len(invariants) + len(props))
    chk.note("design_histories", len(out))
    return [tuple(json.loads(x) for x in h) for h in out]
