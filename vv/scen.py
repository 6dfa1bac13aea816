"""Scenarios: the JSON form shared with the specification, and its vspec files and command line."""
from __future__ import annotations

import json
import zlib
from pathlib import Path

import yaml

from .enc import dec, enc, enc_attrs


class Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def vfile(name, entries, incs=()):
    """entries: {fqn: attrs} or [(fqn, attrs)]; incs: [(target, prefix or '')]"""
    items = entries.items() if isinstance(entries, dict) else entries
    return {
        "name": name,
        "entries": [{"p": k.split("."), "v": enc(v)} for k, v in items],
        "incs": [{"target": t, "prefix": p.split(".") if p else []} for t, p in incs],
    }


def scenario(files, main="m.vspec", **kw):
    s = {
        "files": files, "main": main, "overlays": [], "idirs": [], "types": [], "quantities": [], "units": [],
        "strict": False, "aborts": [], "exts": [], "extall": True, "uuid": False, "expand": True,
    }
    s.update(kw)
    return s


def file_text(f) -> str:
    """YAML text of one file; include statements go where the entry index says (default: at the end).

    How the text is laid out is varied: nothing may depend on it.
    """
    style = zlib.crc32(repr((f["name"], len(f["entries"]), f["entries"][:1], f["incs"])).encode()) % 8
    out = []
    for k, e in enumerate(f["entries"]):
        flow = None if style >= 6 else False
        t = yaml.dump({".".join(e["p"]): dec(e["v"])}, Dumper=Dumper, default_flow_style=flow,
                      allow_unicode=style != 5, sort_keys=style == 4, width=10000)
        if style in (2, 3) and k % 2:
            t = "\n# a comment: with #include nothing.vspec\n  # include other.vspec Pre\n" + t
        out.append(t)
    left, gap, right = {1: ("  ", " ", ""), 2: ("", "  ", "  "), 3: ("    ", " \t", " "), 4: ("", "\t", "")}.get(style, ("", " ", ""))
    incs = [left + "#include" + gap + i["target"] + (gap + ".".join(i["prefix"]) if i["prefix"] else "") + right + "\n"
            for i in f["incs"]]
    where = f.get("incpos", len(out))
    text = "".join(out[:where]) + "".join(incs) + "".join(out[where:])
    return "---\n" + text if style == 5 else text


def materialize(s, d: Path):
    for f in s["files"]:
        p = d / f["name"]
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(file_text(f), encoding="utf-8")
    for i in s["idirs"]:
        (d / i).mkdir(parents=True, exist_ok=True)


def base_args(s, exporter, output, types=True):
    a = ["export", exporter, "-s", s["main"], "-o", output]
    for o in s["overlays"]:
        a += ["-l", o]
    for o in s["idirs"]:
        a += ["-I", o]
    if types:
        for o in s["types"]:
            a += ["-t", o]
    for o in s["quantities"]:
        a += ["-q", o]
    for o in s["units"]:
        a += ["-u", o]
    if s["strict"]:
        a.append("--strict")
    for o in s["aborts"]:
        a += ["-a", o]
    for o in s["exts"]:
        a += ["-e", o]
    if s["uuid"]:
        a.append("--uuid")
    if not s["expand"]:
        a.append("--no-expand")
    if s["extall"] and exporter in ("json", "yaml", "jsonschema"):
        a.append("--extend-all-attributes")
    return a


# ---------------------------------------------------------------------------
# observations


def flatten_json(tree: dict) -> list:
    out = []

    def walk(path, node):
        out.append({"p": path, "a": enc_attrs({k: v for k, v in node.items() if k != "children"})})
        for n, c in node.get("children", {}).items():
            walk(path + [n], c)

    for n, c in tree.items():
        walk([n], c)
    return out


def obs_json(rc, path: Path, types_path: Path | None = None):
    o = {"ok": rc == 0, "wrote": path.exists(), "nodes": [], "types": []}
    if rc == 0 and path.exists():
        data = json.loads(path.read_text())
        types = data.pop("ComplexDataTypes", {})
        if types_path is not None and types_path.exists():
            types = json.loads(types_path.read_text())
        o["nodes"] = flatten_json(data)
        o["types"] = flatten_json(types)
    return o


def flatten_yaml(data: dict) -> list:
    return [{"p": k.split("."), "a": enc_attrs(v)} for k, v in data.items()]


def obs_yaml(rc, path: Path, types_path: Path | None = None):
    o = {"ok": rc == 0, "wrote": path.exists(), "nodes": [], "types": []}
    if rc == 0 and path.exists():
        data = yaml.safe_load(path.read_text()) or {}
        types = data.pop("ComplexDataTypes", {})
        if types_path is not None and types_path.exists():
            types = yaml.safe_load(types_path.read_text()) or {}
        o["nodes"] = flatten_yaml(data)
        o["types"] = flatten_yaml(types)
    return o
