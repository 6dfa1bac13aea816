"""The exporters at the command line: arguments, output files, and readers turning the files into groups of nodes.

A group is {"n": name, "nodes": [{"p": path, "a": attributes}]}, the form spec/TraceExport.tla compares.
"""
from __future__ import annotations

import csv
import io
import json
import re
import shutil
import subprocess
from pathlib import Path

import yaml

from . import scen
from .enc import enc, enc_attrs
from .modelcheck import CFG
from .tools import PY, Check, Machinery, write_ndjson

EXT = {"json": "json", "yaml": "yaml", "csv": "csv", "id": "yaml", "jsonschema": "json"}
PRELOAD = ("vss2json,vss2yaml,vss2csv,vss2id,vss2jsonschema,vss2franca,vss2protobuf,vss2ddsidl,vss2graphql,vss2go,vss2tree,"
           "vss2binary,vss2apigear")
ALL = ["json", "yaml", "csv", "id", "jsonschema", "franca", "protobuf", "ddsidl", "graphql", "go", "tree", "binary", "apigear"]
# options of the command line that only some exporters have
UUID = {"json", "yaml", "csv", "id", "jsonschema", "franca", "ddsidl", "tree", "binary", "apigear", "samm"}
EXPAND = {"json", "yaml", "csv", "id", "jsonschema", "tree"}
TYPES = {"json", "yaml", "csv", "id", "jsonschema", "protobuf", "ddsidl", "go", "tree", "apigear", "samm"}
TYPESOUT = {"json", "yaml", "csv", "protobuf"}
TOOLS = {}          # tool -> reader(directory, scenario, options) -> groups


class Unreadable(Exception):
    """An output file the tool wrote is not in the format it claims to be."""


def group(n, nodes):
    return {"n": n, "nodes": nodes}


def node(p, d):
    return {"p": p if isinstance(p, list) else p.split("."), "a": enc_attrs(d)}


def reader(*names):
    def deco(f):
        for n in names:
            TOOLS[n] = f
        return f
    return deco


def out_name(tool):
    return "out." + EXT.get(tool, tool)


def fit(tool, s, opt):
    """take out of a scenario what the command line of the exporter cannot express"""
    s["uuid"] = s["uuid"] and tool in UUID
    s["expand"] = (s["expand"] or tool not in EXPAND) and tool != "samm"
    s["extall"] = s["extall"] and tool in ("json", "yaml", "jsonschema")
    if tool not in TYPES:
        s["types"] = []
    opt["typesout"] = opt["typesout"] and bool(s["types"]) and tool in TYPESOUT
    return s


def args_of(tool, s, opt):
    cmd = opt.get("cmd", tool)
    a = scen.base_args(s, cmd, out_name(tool))
    if tool in ("apigear", "samm"):
        a[a.index("-o")] = {"apigear": "--output-dir", "samm": "--target-folder"}[tool]
    if tool == "samm" and "--no-expand" in a:      # it never expands
        a.remove("--no-expand")
    if tool in ("json", "jsonschema") and opt.get("pretty"):
        a.append("--pretty")
    if opt.get("typesout"):
        a += ["--types-out-dir", "types.protobuf"] if tool == "protobuf" else ["--types-output", "types." + EXT.get(tool, tool)]
    if opt.get("casesens"):
        a.append("--case-sensitive")
    if tool == "protobuf" and opt.get("staticuid"):
        a.append("--static-uid")
    if tool == "protobuf" and opt.get("addopt"):
        a.append("--add-optional")
    if tool == "jsonschema":
        a += ["--no-additional-properties"] * opt["noadd"] + ["--require-all-properties"] * opt["reqall"]
    if tool == "franca" and opt["fversion"]:
        a += ["--franca-vss-version", opt["fversion"]]
    if tool == "tree":
        for n in opt["attrs"]:
            a += ["--attr", n]
    if tool == "graphql":
        for x in opt["gql"]:
            a += ["-g", x["n"] + "," + x["d"]]
    if tool == "ddsidl" and opt["idlall"]:
        a.append("--all-idl-features")
    if tool == "apigear":
        for x in opt["layers"]:
            a += [f"--apigear-template-{x['n']}-path", x["p"]]
    if tool == "go":
        a += ["--package", opt["package"]] * (opt["package"] != "vss") + ["--no-short-names"] * opt["longnames"]
    if tool == "samm":
        a += ["--target-namespace", opt["namespace"]] * (opt["namespace"] != "com.covesa.vss.spec")
        a += ["--no-split"] * (not opt["split"]) + ["--split-depth", str(opt["depth"])] * (opt["depth"] != 1)
        a += ["--signals-file", "signals.txt"] * bool(opt["signals"])
    a += opt.get("args", [])
    return a


# ---------------------------------------------------------------------------
# readers


@reader("json")
def read_json(d, s, opt):
    data = json.loads((d / "out.json").read_text(encoding="utf-8"))
    g = []
    types = data.pop("ComplexDataTypes", None)
    if opt["typesout"] and (d / "types.json").exists():
        g.append(group("typesfile", scen.flatten_json(json.loads((d / "types.json").read_text(encoding="utf-8")))))
    if types is not None:
        g.append(group("types", scen.flatten_json(types)))
    g.append(group("nodes", scen.flatten_json(data)))
    return g


@reader("yaml")
def read_yaml(d, s, opt):
    data = load_yaml(d / "out.yaml") or {}
    g = []
    types = data.pop("ComplexDataTypes", None)
    if opt["typesout"] and (d / "types.yaml").exists():
        g.append(group("typesfile", scen.flatten_yaml(load_yaml(d / "types.yaml") or {})))
    if types is not None:
        g.append(group("types", scen.flatten_yaml(types)))
    g.append(group("nodes", scen.flatten_yaml(data)))
    return g


class StrictLoader(yaml.SafeLoader):
    """A loader that does not accept a key twice."""


def _mapping(loader, n, deep=False):
    seen = []
    for k, _ in n.value:
        v = loader.construct_object(k, deep=True)
        if v in seen:
            raise Unreadable(f"key {v!r} twice")
        seen.append(v)
    return yaml.SafeLoader.construct_mapping(loader, n, deep)


StrictLoader.add_constructor("tag:yaml.org,2002:map", lambda ld, n: _mapping(ld, n, True))


def load_yaml(p: Path):
    return yaml.load(p.read_text(encoding="utf-8"), Loader=StrictLoader)


def csv_groups(p: Path, pre=""):
    rows = list(csv.reader(io.StringIO(p.read_text(encoding="utf-8"), newline="")))
    head = rows[0]
    body = []
    for r in rows[1:]:
        if len(r) != len(head):
            raise Unreadable(f"row with {len(r)} cells under {len(head)} columns")
        body.append(node(r[0], dict(zip(head[1:], r[1:]))))
    return [group(pre + "header", [{"p": [c], "a": []} for c in head]), group(pre + "rows", body)]


@reader("csv")
def read_csv(d, s, opt):
    g = csv_groups(d / "out.csv")
    if opt["typesout"] and (d / "types.csv").exists():
        g += csv_groups(d / "types.csv", "types")
    return g


@reader("id")
def read_id(d, s, opt):
    return [group("nodes", scen.flatten_yaml(load_yaml(d / "out.yaml") or {}))]


def proto_file(p: Path, key):
    """-> (nodes, [(message, field, number)])"""
    nodes, numbers, msg = [], [], None
    lines = [x.strip() for x in p.read_text(encoding="utf-8").splitlines() if x.strip()]
    if not lines or lines[0] != 'syntax = "proto3";':
        raise Unreadable("no proto3 syntax line")
    for x in lines[1:]:
        m = re.fullmatch(r'import "([^"]*)";', x)
        if m and msg is None:
            nodes.append({"p": ["import", m[1]], "a": []})
            continue
        m = re.fullmatch(r"package (\S+);", x)
        if m and msg is None:
            nodes.append({"p": ["package", m[1]], "a": []})
            continue
        m = re.fullmatch(r"message (\S+) \{", x)
        if m and msg is None:
            msg = m[1]
            nodes.append({"p": ["message", msg], "a": []})
            continue
        if x == "}" and msg is not None:
            msg = None
            continue
        m = re.fullmatch(r"(?:(repeated|optional) )?(\S+) (\S+) = (-?\d+);", x)
        if m and msg is not None:
            nodes.append({"p": ["field", msg, m[3]], "a": enc_attrs({"type": m[2], "label": m[1] or ""})})
            numbers.append({"p": [key, msg, m[3]], "a": enc_attrs({"nr": int(m[4])})})
            continue
        raise Unreadable(f"line {x!r}")
    if msg is not None:
        raise Unreadable("message without end")
    return nodes, numbers


def cyclic(deps):
    def reach(a, seen):
        for b in deps.get(a, ()):
            if b not in seen:
                seen.add(b)
                reach(b, seen)
        return seen
    return any(a in reach(a, set()) for a in deps)


@reader("protobuf")
def read_protobuf(d, s, opt):
    base = d / "types.protobuf" if opt["typesout"] else d
    files = {"signals": d / "out.protobuf"}
    for f in sorted(base.rglob("*.proto")):
        files[str(f.relative_to(base))] = f
    g, numbers, deps = [], [], {}
    for key, f in files.items():
        nodes, nrs = proto_file(f, key)
        g.append(group(key, nodes))
        numbers += nrs
        deps[key] = [n["p"][1] for n in nodes if n["p"][0] == "import"]
    g.append(group("numbers" if opt["staticuid"] else "~numbers", numbers))
    # package files that need each other cannot be compiled, whatever they contain
    if not cyclic(deps):
        r = subprocess.run(["protoc", f"-I{base}", f"-I{d}", "--descriptor_set_out=/dev/null", "out.protobuf",
                            *[k for k in files if k != "signals"]], cwd=d, capture_output=True, text=True)
        if r.returncode != 0:
            raise Unreadable("protoc: " + r.stderr[:300])
    return g


FRANCA_HEAD = re.compile(r'''const UTF8String VSS_VERSION = "(.*)"\n\nstruct SignalSpec \{[^}]*\}\n\nconst SignalSpec\[\] signal_spec = \[\n''')


def literal(t):
    """the text of a string literal"""
    m = re.fullmatch(r'"((?:[^"\\\n]|\\.)*)"', t)
    if not m:
        raise Unreadable(f"not a string literal: {t!r}")
    return re.sub(r"\\(.)", lambda x: {"n": "\n"}.get(x[1], x[1]), m[1])


@reader("franca")
def read_franca(d, s, opt):
    text = (d / "out.franca").read_text(encoding="utf-8")
    m = FRANCA_HEAD.search(text)
    if not m or not text.endswith("\n]"):
        raise Unreadable("no array of signals")
    body = text[m.end():-2]
    nodes = []
    for n, rec in enumerate(body.split("\n},\n") if body else []):
        if rec.endswith("\n}"):
            rec = rec[:-2]
        if not rec.startswith("{\t"):
            raise Unreadable(f"record {rec!r}")
        a = {}
        for x in rec[2:].split(",\n\t"):
            k, v = x.split(": ", 1)
            if k in a:
                raise Unreadable(f"{k} twice")
            a[k] = v if k in ("min", "max", "allowed") else literal(v)
        nodes.append(node(a.pop("name"), a))
    return [group("version", [{"p": [m[1]], "a": []}]), group("nodes", nodes)]


@reader("tree")
def read_tree(d, s, opt):
    trees, path = [], []
    for x in (d / "out.tree").read_text(encoding="utf-8").split("\n"):
        m = re.fullmatch(r"((?:│   |    )*)(├── |└── )?(.*)", x)
        depth = len(m[1]) // 4
        if m[2] or (depth == 0 and "=" not in m[3]):
            path = path[:depth + 1] + [m[3]] if m[2] else [m[3]]
            if m[2] and len(path) != depth + 2:
                raise Unreadable(f"no parent: {x!r}")
            if not m[2]:
                trees.append([])
            trees[-1].append({"p": path, "a": {}})
        else:
            if depth != len(path) - 1:
                raise Unreadable(f"attribute of nothing: {x!r}")
            k, v = m[3].split("=", 1)
            if k in trees[-1][-1]["a"]:
                raise Unreadable(f"{k} twice")
            trees[-1][-1]["a"][k] = "{...}" if v.startswith("{") else v
    if len(trees) not in (1, 2):
        raise Unreadable(f"{len(trees)} trees")
    return [group(n, [{"p": x["p"], "a": enc_attrs(x["a"])} for x in t]) for n, t in zip(["nodes", "types"], trees)]


def flatten_schema(name, sch, pre):
    nodes, required = [], []

    def walk(path, x):
        kids = x.get("properties", {})
        nodes.append({"p": path, "a": enc_attrs({k: v for k, v in x.items() if k not in ("properties", "required")})})
        required.extend({"p": path + [r], "a": []} for r in x.get("required", []))
        for k, v in kids.items():
            walk(path + [k], v)

    walk([name], sch)
    return [group(pre or "nodes", nodes), group(pre + "required", required)]


def no_twice(pairs):
    if len({k for k, _ in pairs}) != len(pairs):
        raise Unreadable(f"key twice: {[k for k, _ in pairs]}")
    return dict(pairs)


@reader("jsonschema")
def read_jsonschema(d, s, opt):
    data = json.loads((d / "out.json").read_text(encoding="utf-8"), object_pairs_hook=no_twice)
    if data.pop("$schema", None) != "https://json-schema.org/draft/2020-12/schema":
        raise Unreadable("no $schema")
    name = data.pop("title")
    types = data.pop("x-ComplexDataTypes", None)
    g = flatten_schema(name, data, "")
    if types is not None:
        (n, t), = types.items()
        g += flatten_schema(n, t, "types")
    return g


GQL_TOKEN = re.compile(r'\s*(?:("""(?:[^"\\]|\\"""|\\|"(?!""))*""")|("(?:[^"\\\n]|\\.)*")|([_A-Za-z][_0-9A-Za-z]*)|([{}():!\[\]@]))')


def gql_string(t):
    if t.startswith('"""'):
        lines = t[3:-3].replace('\\"""', '"""').split("\n")
        indent = min((len(x) - len(x.lstrip()) for x in lines[1:] if x.strip()), default=0)
        lines = lines[:1] + [x[indent:] for x in lines[1:]]
        while lines and not lines[0].strip():
            lines.pop(0)
        while lines and not lines[-1].strip():
            lines.pop()
        return "\n".join(lines)
    return json.loads(t)


@reader("graphql")
def read_graphql(d, s, opt):
    text = (d / "out.graphql").read_text(encoding="utf-8")
    toks, pos = [], 0
    while text[pos:].strip():
        m = GQL_TOKEN.match(text, pos)
        if not m:
            raise Unreadable(f"at {text[pos:pos + 40]!r}")
        pos = m.end()
        toks.append(("s", gql_string(m[1] or m[2])) if m[1] or m[2] else ("n", m[3]) if m[3] else ("p", m[4]))
    at = 0

    def peek(*t):
        return at < len(toks) and toks[at] == t

    def take(*t):
        nonlocal at
        if at >= len(toks) or (toks[at][0] != t[0]) or (len(t) > 1 and toks[at][1] != t[1]):
            raise Unreadable(f"{t} expected at {toks[at:at + 3]}")
        at += 1
        return toks[at - 1][1]

    def opt_string():
        return take("s") if at < len(toks) and toks[at][0] == "s" else None

    def typ():
        if peek("p", "["):
            take("p", "[")
            r = "[" + typ() + "]"
            take("p", "]")
        else:
            r = take("n")
        if peek("p", "!"):
            take("p", "!")
            r += "!"
        return r

    types, fields, args = [], [], []
    while at < len(toks):
        desc = opt_string()
        take("n", "type")
        name = take("n")
        types.append({"p": [name], "a": enc_attrs({} if desc is None else {"description": desc})})
        if not peek("p", "{"):
            continue
        take("p", "{")
        while not peek("p", "}"):
            desc = opt_string()
            f = take("n")
            if peek("p", "("):
                take("p", "(")
                while not peek("p", ")"):
                    opt_string()
                    a = take("n")
                    take("p", ":")
                    args.append((name, f, a, typ()))
                take("p", ")")
            take("p", ":")
            a = {"type": typ()}
            if desc is not None:
                a["description"] = desc
            if peek("p", "@"):
                for t in (("p", "@"), ("n", "deprecated")):
                    take(*t)
                a["deprecation"] = "No longer supported"
                if peek("p", "("):
                    for t in (("p", "("), ("n", "reason"), ("p", ":")):
                        take(*t)
                    a["deprecation"] = take("s")
                    take("p", ")")
            fields.append({"p": [name, f], "a": enc_attrs(a)})
        take("p", "}")
    if args != [("Query", "vehicle", "id", "String!"), ("Query", "vehicle", "after", "String")]:
        raise Unreadable(f"arguments {args}")
    names = {x["p"][0] for x in types} | {"Int", "Float", "String", "Boolean"}
    for x in fields:
        if x["a"][0]["v"]["s"].strip("[]!") not in names:
            raise Unreadable(f"field {x['p']} has no type")
    return [group("types", types), group("fields", fields)]


@reader("ddsidl")
def read_ddsidl(d, s, opt):
    nodes, path, kinds = [], [], []
    modules, forward, known, undeclared = set(), [], set(), []
    cmt = "" if opt["idlall"] else "//"
    pending = None
    for x in [y for y in (d / "out.ddsidl").read_text(encoding="utf-8").split("\n") if y]:
        top = kinds[-1] if kinds else "module"
        m = re.fullmatch(r"(module|struct) (\w+)( \{)?", x)
        if pending and x == "{":
            pass
        elif m and top == "module" and not pending:
            path.append(m[2])
            kinds.append(m[1])
            if m[1] == "struct" or tuple(path) not in modules:
                nodes.append({"p": list(path), "a": {"kind": m[1]}})
            (known if m[1] == "struct" else modules).add(tuple(path))
            pending = not m[3]
            continue
        elif pending:
            raise Unreadable(f"{x!r} instead of a bracket")
        elif x == "};" and path:
            path.pop()
            kinds.pop()
        elif re.fullmatch(r"struct \w+;", x) and top == "module":
            forward.append(path + [x[7:-1]])
            known.add(tuple(forward[-1]))
        elif (m := re.fullmatch(r"enum (\w+)\{(.*)\};", x)) and top == "module":
            nodes.append({"p": path + [m[1]], "a": {"kind": "enum", "values": m[2].split(",")}})
            known.add(tuple(path + [m[1]]))
        elif top == "struct":
            idl_member(x, path, nodes, cmt)
            if m := re.match(r"(?:sequence<)?(\w+(?:::\w+)+)", x):       # names are looked up from the inner scope outwards
                name = m[1].split("::")
                if not any(tuple(path[:i] + name) in known for i in range(len(path))) and \
                        path + name not in [u["p"] for u in undeclared]:
                    undeclared.append({"p": path + name, "a": []})
        else:
            raise Unreadable(f"line {x!r}")
        pending = False
    if path:
        raise Unreadable("brackets left open")
    defined = [n["p"] for n in nodes]
    return [group("idl", [{"p": n["p"], "a": enc_attrs(n["a"])} for n in nodes]),
            group("undeclared", undeclared), group("undefined", [{"p": p, "a": []} for p in map(list, sorted(set(map(tuple, forward)))) if p not in defined])]


def idl_member(x, path, nodes, cmt):
    a = next(n["a"] for n in reversed(nodes) if n["p"] == path)

    def put(k, v):
        if k in a:
            raise Unreadable(f"{k} twice in {path}")
        a[k] = v

    if x == "string uuid;":
        put("uuid", "string")
    elif m := re.fullmatch(r"@range\(min=(\S+) ,max=(\S+)\)", x):
        put("range", m[1] + ".." + m[2])
    elif m := re.fullmatch(re.escape(cmt) + r"const string (unit|type|description) ?=(.*);", x):
        put(m[1], literal(m[2]))
    elif (m := re.fullmatch(r"((?:(?! value\b).)*) value(?:(?:  default)? (.*))?;", x)) and "value" not in a and "type" not in a:
        put("value", m[1])
        if m[2] is not None:
            put("default", literal(m[2]) if m[2].startswith('"') else m[2])
    elif m := re.fullmatch(r"(.*) (\w+);", x):
        nodes.append({"p": path + [m[2]], "a": {"kind": "field", "value": m[1]}})
    else:
        raise Unreadable(f"line {x!r} in {path}")


@reader("apigear")
def read_apigear(d, s, opt):
    out = d / "out.apigear"
    root = {f.name.split(".")[0] for f in out.iterdir()}
    if len(root) != 1 or len(list(out.iterdir())) != 2:
        raise Unreadable(f"files {sorted(f.name for f in out.iterdir())}")
    root = root.pop()
    mod = load_yaml(out / f"{root}.module.yaml")
    sol = load_yaml(out / f"{root}.solution.yaml")
    if (mod.pop("schema"), mod.pop("name"), mod.pop("version")) != ("apigear.module/1.0", root, "1.0"):
        raise Unreadable("module header")
    if (sol.pop("schema"), sol.pop("name"), sol.pop("version")) != ("apigear.solution/1.0", root, "1.0"):
        raise Unreadable("solution header")
    g = {n: [] for n in ("interfaces", "properties", "enums", "members", "structs", "fields", "solution")}
    for outer, inner, key in (("interfaces", "properties", "properties"), ("enums", "members", "members"), ("structs", "fields", "fields")):
        for x in mod.pop(outer, []):
            g[outer].append({"p": [x["name"]], "a": []})
            for n, y in enumerate(ys := x.pop(key)):
                if outer != "enums" or y not in ys[:n]:           # a value may be allowed twice
                    g[inner].append({"p": [x["name"], y["name"]], "a": enc_attrs({k: v for k, v in y.items() if k != "name"})})
            if set(x) != {"name"}:
                raise Unreadable(f"{outer}: {sorted(x)}")
    tmpl = {"unreal": "unreal", "cpp": "cpp14", "qt5": "qt5", "qt6": "qtcpp"}
    for x in sol.pop("layers"):
        if x["inputs"] != [f"{root}.module.yaml"] or x["template"] != "apigear-io/template-" + tmpl[x["name"]]:
            raise Unreadable(f"layer {x}")
        g["solution"].append({"p": [x["name"]], "a": enc_attrs({"output": x["output"]})})
    if mod or sol:
        raise Unreadable(f"more: {sorted(mod)} {sorted(sol)}")
    return [group(n, v) for n, v in g.items()]


@reader("go")
def read_go(d, s, opt):
    lines = (d / "out.go").read_text(encoding="utf-8").split("\n")
    m = re.fullmatch(r"package (\w+)", lines[0])
    if not m or lines[1] != "" or lines[-1] != "":
        raise Unreadable("package clause")
    nodes, cur = [], None
    for x in lines[2:-1]:
        if cur is None and (h := re.fullmatch(r"type (\w+) struct \{", x)):
            cur = h[1]
            nodes.append({"p": ["struct", cur], "a": []})
        elif cur is not None and x == "}":
            cur = None
        elif cur is not None and (h := re.fullmatch(r"\t(\w+) (\[\])?(\w+)", x)):
            nodes.append({"p": ["member", cur, h[1]], "a": enc_attrs({"type": h[3]} | ({"array": True} if h[2] else {}))})
        else:
            raise Unreadable(f"line {x!r}")
    if cur is not None or len({tuple(n["p"]) for n in nodes}) != len(nodes):
        raise Unreadable("a struct without end, or declared twice")
    return [group("package", [{"p": [m[1]], "a": []}]), group("~structs", nodes)]


RDF_TYPE = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
XSD = "http://www.w3.org/2001/XMLSchema#"
SAMM = re.compile(r"urn:samm:org\.eclipse\.esmf\.samm:[a-z-]+:[0-9.]+#(\w+)")


@reader("samm")
def read_samm(d, s, opt):
    """The files as one graph, walked along the payload of the top aspect."""
    defs, twice, spaces = {}, set(), set()
    files = json.loads((d / "graph.json").read_text())
    for name, graph in files:
        if isinstance(graph, str):
            raise Unreadable(f"{name}: {graph}")
        base, ns, version, file = name.split("/")
        here = f"urn:samm:{ns}:{version}#"
        aspects = set()
        for subj, props in graph.items():
            if not subj.startswith(here):
                raise Unreadable(f"{name}: element {subj} in another namespace")
            e = subj[len(here):]
            x = {SAMM.sub(r"\1", p) if p != RDF_TYPE else "a": v for p, v in props.items()}
            if any(len(v) != 1 for v in x.values()) or "a" not in x:
                raise Unreadable(f"{name}: {e}: several values or no type")
            x = {p: v[0] for p, v in x.items()}
            x["a"] = SAMM.fullmatch(x["a"]["u"])[1]
            x["here"] = (here, ns, version)
            if e in defs:
                twice.add(e)
            defs[e] = x
            aspects |= {e} if x["a"] == "Aspect" else set()
        if aspects != {file[:-len(".ttl")]}:
            raise Unreadable(f"{name}: aspects {sorted(aspects)}")
        spaces.add(here)
    undefined, reached, nodes, shown = set(), set(), [], {}

    def ref(o):
        """the local name of an element referred to"""
        e = o["u"].partition("#")[2]
        if o["u"].partition("#")[0] + "#" not in spaces or e not in defs:
            undefined.add(o["u"])
            return None
        return e

    def num(v, dt):
        """3.0, 3e0 and 3 are the same floating point number"""
        return repr(float(v)).removesuffix(".0") if dt in (XSD + "float", XSD + "double") else v

    def entry(o):
        if "u" in o:
            return ref(o), None, {}
        x = {SAMM.sub(r"\1", p): v[0] for p, v in o["b"].items() if len(v) == 1}
        if not {"property", "payloadName"} <= set(x) <= {"property", "payloadName", "optional"}:
            raise Unreadable(f"property entry {sorted(x)}")
        return ref(x["property"]), x["payloadName"]["v"], {"optional": x["optional"]["v"] == "true"} if "optional" in x else {}

    def walk(e, path, extra, depth=0):
        if e is None:
            return
        if defs[e]["a"] != "Property" or depth > 40:
            raise Unreadable(f"{e} is a {defs[e]['a']}, or endless")
        reached.add(e)
        char = ref(defs[e]["characteristic"])
        if char is None:
            return
        c = dict(defs[char])
        a = dict(extra)
        if c["a"] == "Trait":
            k = defs.get(ref(c["constraint"]), {})
            if k.get("a") != "RangeConstraint":
                raise Unreadable(f"constraint of {char}")
            types = set()
            for n in ("min", "max"):
                if n + "Value" in k:
                    a[n] = num(k[n + "Value"]["v"], k[n + "Value"]["t"])
                    types.add(k[n + "Value"]["t"])
            c = dict(defs.get(ref(c["baseCharacteristic"]), {"a": "?", "dataType": {"u": "?"}}))
            if types != {c.get("dataType", {}).get("u")}:
                raise Unreadable(f"{char}: range of {types}, values of {c.get('dataType')}")
        dt = c["dataType"]["u"]
        if "description" in c:
            a["description"] = c["description"]["v"]
        if dt.startswith(XSD):
            a["kind"], a["datatype"] = c["a"], dt[len(XSD):]
            if "unit" in c:
                a["unit"] = c["unit"]["u"].partition("#")[2]
            for x in (c.get("defaultValue"), defs[e].get("exampleValue")):
                if x:
                    a["default"] = num(x["v"], dt)
                    if x["t"].removeprefix(XSD) not in (a["datatype"], "") or x["t"] == "" and a["datatype"] != "string":
                        raise Unreadable(f"default of {e} is a {x['t']}")
            if "values" in c:
                a["values"] = [num(x["v"], dt) for x in c["values"]["list"]]
        else:
            a["kind"] = "instances" if c["a"] == "SingleEntity" else "branch"
            ent = ref(c["dataType"])
            if ent is not None:
                if defs[ent]["a"] != "Entity":
                    raise Unreadable(f"{ent} is a {defs[ent]['a']}")
                for o in defs[ent].get("properties", {"list": []})["list"]:
                    child, payload, more = entry(o)
                    walk(child, path + [payload], more, depth + 1)
        nodes.append(node(path, a))
        if "description" in a:
            shown[e] = a["description"].split(": ", 1)[1].split("\n")[0]

    tops = {}
    for e, x in defs.items():
        if x["a"] == "Aspect":
            (o,) = x["properties"]["list"]
            tops[e] = ref(o)
    inner = {ref(b["b"][p][0]) for x in defs.values() if x["a"] == "Entity" for b in x.get("properties", {"list": []})["list"] if "b" in b
             for p in b["b"] if p.endswith("#property")}
    roots = [e for e in tops.values() if e not in inner]
    if len(roots) > 1:
        raise Unreadable(f"several top aspects: {roots}")
    for e in roots:
        walk(e, ["/"], {})
    aspects = []
    for a, e in tops.items():
        here, ns, version = defs[a]["here"]
        at = shown.get(e)
        if at is None:       # a branch with instances: its own characteristic is that of the last instances
            ends = e
            for _ in range(40):
                c = defs.get(ref(defs[ends]["characteristic"])) if ends and ends not in shown else None
                if not c or "u" not in c.get("dataType", {}) or c["dataType"]["u"].startswith(XSD):
                    break
                first = defs.get(ref(c["dataType"]), {}).get("properties", {"list": []})["list"][:1]
                ends = entry(first[0])[0] if first else None
            at = shown.get(ends)
        aspects.append(node(at or "?" + a, {"namespace": ns, "version": version}))
    props = {e for e, x in defs.items() if x["a"] == "Property"}
    return [group("aspects", aspects), group("nodes", nodes)] + [
        group(n, [{"p": [e], "a": []} for e in sorted(v)])
        for n, v in (("undefined", undefined), ("twice", twice), ("unreached", props - reached))]


@reader("binary")
def read_binary(d, s, opt):
    from .binlib import decode
    return [group("nodes", decode((d / "out.binary").read_bytes()))]


# ---------------------------------------------------------------------------
# running and judging


def options(**kw):
    o = {"typesout": False, "casesens": False, "staticuid": False, "addopt": False, "pretty": False,
         "noadd": False, "reqall": False, "idlall": False, "fversion": "", "attrs": [], "gql": [], "layers": [],
         "package": "vss", "longnames": False, "namespace": "com.covesa.vss.spec", "split": True, "depth": 1,
         "signals": []}
    o.update(kw)
    return o


def observe(tool, d: Path, s, opt, rc):
    o = {"ok": rc == 0, "wrote": (d / out_name(tool)).exists(), "groups": []}
    if o["ok"]:
        try:
            o["groups"] = TOOLS[tool](d, s, opt)
        except Exception as e:      # what was written is not what it claims to be
            o["groups"] = [group(f"unreadable: {type(e).__name__}: {e}"[:200], [])]
    return o


def run(chk: Check, items, root=None, keep=False, hashseed="0"):
    """items: (tool, scenario, options) -> observations in order"""
    root = root or chk.scratch.dir("ex")
    jobs = []
    for n, (tool, s, opt) in enumerate(items):
        d = root / str(n)
        d.mkdir()
        scen.materialize(s, d)
        if opt.get("signals"):
            (d / "signals.txt").write_text("\n".join(opt["signals"]) + "\n")
        jobs.append({"id": n, "cwd": d, "args": args_of(tool, s, opt)})
    samm = [str(root / str(n)) for n, (tool, s, opt) in enumerate(items) if tool == "samm"]
    res = chk.jobs(jobs, preload=PRELOAD + ",vss2samm.vss2samm" * bool(samm), hashseed=hashseed)
    for n in range(0, len(samm), 500):
        subprocess.run([PY, str(Path(__file__).with_name("ttlread.py")), *samm[n:n + 500]], check=True)
    obs = []
    for n, (tool, s, opt) in enumerate(items):
        r = res[str(n)]
        o = observe(tool, root / str(n), s, opt, r["rc"])
        o["rc"] = r["rc"]
        o["log"] = r["err"][-1500:] + r["out"][-1500:]
        obs.append(o)
    if not keep:
        shutil.rmtree(root, ignore_errors=True)
    return obs



def validate(chk: Check, items, obs, module="TraceExport", cfg=CFG):
    d = chk.scratch.dir("trace")
    f = d / "trace.ndjson"
    write_ndjson(f, [{"sc": s, "tool": t, "opt": {k: v for k, v in o.items() if k not in ("args", "cmd", "pretty")},
                      "obs": {k: v for k, v in b.items() if k not in ("log", "rc")}}
                     for (t, s, o), b in zip(items, obs)])
    r = chk.tlc(module, cfg, env={"TRACE": str(f)})
    got = {}
    for p in r.prints:
        if p[0] == "@V":
            if p[1] in got and got[p[1]] != p[2]:
                raise Machinery(f"two verdicts for trace {p[1]}: {got[p[1]]} / {p[2]}")
            got[p[1]] = p[2]
    if set(got) != set(range(1, len(items) + 1)):
        raise Machinery(f"TLC judged {len(got)} of {len(items)} traces\n" + r.out[-3000:])
    chk.traces += len(items)
    return [got[n + 1] for n in range(len(items))]


def judge(chk: Check, items, label="", keys=None, root=None):
    obs = run(chk, items, root=root, keep=root is not None)
    ver = validate(chk, items, obs)
    for n, ((tool, s, opt), o, v) in enumerate(zip(items, obs, ver)):
        if v[0] != "ok":
            chk.violation(
                f"{label}: {tool}: {v[0]} {v[1]} (expected {v[2]}, got {v[3]})",
                {"scenario": {f["name"]: scen.file_text(f) for f in s["files"]},
                 "args": args_of(tool, s, opt), "rc": o["rc"], "log": o["log"][-600:]},
                key=keys[n] if keys else None,
            )
        else:
            chk.note(tool + ("_accepted" if v[1] == "done" else "_rejected"))
            for rule in v[2] if v[1] == "fail" else []:
                chk.rules[rule] = chk.rules.get(rule, 0) + 1
            if n % max(1, len(items) // 3) == 0:
                chk.sample({"tool": tool, "args": args_of(tool, s, opt)[3:], "verdict": v[1],
                            "files": {f["name"]: scen.file_text(f) for f in s["files"]}})
    return ver
