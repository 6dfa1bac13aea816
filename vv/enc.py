"""Tagged values: how YAML values are written for the TLA+ specification (see spec/VssBase.tla)."""
from __future__ import annotations

import json
import re
from typing import Any


def flt(x: float) -> str:
    return repr(float(x))


def enc(v: Any) -> dict:
    if v is None:
        return {"k": "n", "s": "", "l": [], "d": []}
    if isinstance(v, bool):
        return {"k": "b", "s": "true" if v else "false", "l": [], "d": []}
    if isinstance(v, int):
        return {"k": "i", "s": str(v), "l": [], "d": []}
    if isinstance(v, float):
        return {"k": "f", "s": flt(v), "l": [], "d": []}
    if isinstance(v, str):
        return {"k": "s", "s": v, "l": [], "d": []}
    if isinstance(v, (list, tuple)):
        return {"k": "l", "s": "", "l": [enc(x) for x in v], "d": []}
    if isinstance(v, dict):
        return {"k": "d", "s": "", "l": [], "d": enc_attrs(v)}
    return {"k": "?", "s": repr(v), "l": [], "d": []}


def enc_attrs(d: dict) -> list:
    return [{"n": str(k), "v": enc(x)} for k, x in d.items()]


def dec(v: dict) -> Any:
    k, s = v["k"], v["s"]
    if k == "n":
        return None
    if k == "b":
        return s == "true"
    if k == "i":
        return int(s)
    if k == "f":
        return float(s)
    if k == "s":
        return s
    if k == "l":
        return [dec(x) for x in v["l"]]
    if k == "d":
        return {e["n"]: dec(e["v"]) for e in v["d"]}
    raise ValueError(k)


# ---------------------------------------------------------------------------
# A parser for the TLA+ values TLC prints (PrintT): records, tuples, sets, functions, strings, numbers


_tok = re.compile(r'\s*(?:(<<|>>|\|->|:>|@@|\[|\]|\{|\}|\(|\)|,)|"((?:[^"\\]|\\.)*)"|(-?\d+)|(TRUE|FALSE)|([A-Za-z_]\w*))')


def parse_tla(text: str) -> Any:
    pos = 0
    toks = []
    while pos < len(text):
        m = _tok.match(text, pos)
        if not m:
            if text[pos:].strip() == "":
                break
            raise ValueError(f"cannot parse TLA value at {text[pos:pos + 40]!r}")
        pos = m.end()
        if m.group(1):
            toks.append(("p", m.group(1)))
        elif m.group(2) is not None:
            toks.append(("s", json.loads('"' + m.group(2) + '"', strict=False)))
        elif m.group(3):
            toks.append(("v", int(m.group(3))))
        elif m.group(4):
            toks.append(("v", m.group(4) == "TRUE"))
        else:
            toks.append(("id", m.group(5)))
    i = 0

    def val():
        nonlocal i
        k, t = toks[i]
        i += 1
        if k in ("s", "v", "id"):
            return t
        if t == "<<":
            return seq(">>")
        if t == "{":
            return seq("}")
        if t == "[":
            r = {}
            while toks[i] != ("p", "]"):
                name = toks[i][1]
                assert toks[i + 1] == ("p", "|->")
                i += 2
                r[name] = val()
                if toks[i] == ("p", ","):
                    i += 1
            i += 1
            return r
        if t == "(":
            r = []
            while True:
                a = val()
                assert toks[i] == ("p", ":>")
                i += 1
                r.append((a, val()))
                if toks[i] == ("p", "@@"):
                    i += 1
                    continue
                assert toks[i] == ("p", ")")
                i += 1
                return r
        raise ValueError(t)

    def seq(end):
        nonlocal i
        r = []
        while toks[i] != ("p", end):
            r.append(val())
            if toks[i] == ("p", ","):
                i += 1
        i += 1
        return r

    return val()
