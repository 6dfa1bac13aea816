"""The binary format, and histories of calls of the C and the Go library (spec/VssLib.tla, spec/TraceLib.tla)."""
from __future__ import annotations

import json
import os
import select
import shutil
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from .enc import dec, enc_attrs
from .tools import CPUS, REPO, VERIF, Check, Machinery, write_ndjson

KINDS = {1: "sensor", 2: "actuator", 3: "attribute", 4: "branch", 5: "struct", 6: "property"}
CFG = "SPECIFICATION LibSpec\nVIEW LibView\nCHECK_DEADLOCK FALSE\n"
ORDER = ["name", "type", "uuid", "description", "datatype", "min", "max", "unit", "allowed", "default", "validate"]


class Undecodable(Exception):
    pass


# ---------------------------------------------------------------------------
# the format


def decode(data: bytes):
    """-> nodes in file order"""
    at = 0

    def take(n):
        nonlocal at
        if at + n > len(data):
            raise Undecodable("file ends early")
        at += n
        return data[at - n:at]

    def one(prefix):
        a, allowed = {}, []
        for f in ORDER:
            wide = f in ("description", "allowed")
            b = take(struct.unpack("<H", take(2))[0] if wide else take(1)[0])
            if f == "allowed":
                while b:
                    n = int(b[:2].decode("ascii"), 16)
                    if len(b) < n + 2:
                        raise Undecodable("allowed values end early")
                    allowed.append(b[2:n + 2].decode())
                    b = b[n + 2:]
            elif b:
                a[f] = b.decode()
        if allowed:
            a["allowed"] = allowed
        p = prefix + [a.pop("name", "")]
        nodes.append({"p": p, "a": enc_attrs(a)})
        for _ in range(take(1)[0]):
            one(p)

    nodes: list = []
    one([])
    if at != len(data):
        raise Undecodable("bytes behind the tree")
    return nodes


def encode(nodes) -> bytes:
    out = bytearray()
    for i, n in enumerate(nodes):
        a = {x["n"]: dec(x["v"]) for x in n["a"]}
        a["name"] = n["p"][-1]
        for f in ORDER:
            if f == "allowed":
                b = b"".join(b"%02X" % len(v.encode()) + v.encode() for v in a.get(f, []))
            else:
                b = a.get(f, "").encode()
            out += struct.pack("<H" if f in ("description", "allowed") else "B", len(b)) + b
        out.append(sum(1 for m in nodes if m["p"][:-1] == n["p"]))
    return bytes(out)


# ---------------------------------------------------------------------------
# the libraries


def build(chk: Check):
    """compile the two drivers with the libraries of the tree under test"""
    d = chk.scratch.dir("libs")
    src = VERIF / "vv" / "libs"
    c = REPO / "binary" / "c_parser"
    r = subprocess.run(["clang", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                        f"-I{c}", str(src / "reader.c"), str(c / "cparserlib.c"), "-o", str(d / "creader")],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Machinery("the C library does not compile:\n" + r.stderr[-2000:])
    g = d / "go"
    g.mkdir()
    shutil.copy(src / "reader.go", g / "main.go")
    base = "github.com/COVESA/vss-tools/binary/go_parser"
    go = REPO / "binary" / "go_parser"
    (g / "go.mod").write_text(
        f"module reader\n\ngo 1.14\n\nreplace {base}/datamodel => {go}/datamodel\nreplace {base}/parserlib => {go}/parserlib\n\n"
        f"require (\n\t{base}/datamodel v0.0.0-20220329142604-d2e9f2e54f70\n\t{base}/parserlib v0.0.0-20220329142604-d2e9f2e54f70\n)\n")
    env = dict(os.environ, GOCACHE=str(d / "gocache"), GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local",
               GONOSUMDB="*", GOPATH=str(d / "gopath"))
    r = subprocess.run(["go", "build", "-o", str(d / "goreader"), "."], cwd=g, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise Machinery("the Go library does not compile:\n" + r.stderr[-2000:])
    shutil.rmtree(d / "gocache", ignore_errors=True)
    return {"c": d / "creader", "go": d / "goreader"}


class Driver:
    """one process of a library"""

    def __init__(self, exe: Path, cwd: Path):
        r, w = os.pipe()
        self.log = open(cwd / (exe.name + ".log"), "wb")
        self.p = subprocess.Popen([str(exe), str(w)], cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                  stderr=self.log, pass_fds=[w], text=True,
                                  env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:symbolize=0"))
        os.close(w)
        self.out = os.fdopen(r, "r")

    def ask(self, *fields):
        try:
            self.p.stdin.write("\t".join(str(f) for f in fields) + "\n")
            self.p.stdin.flush()
            line = self.out.readline() if select.select([self.out], [], [], 30)[0] else self.hangs()
        except BrokenPipeError:
            line = ""
        return line[:-1] if line.endswith("\n") else None

    def hangs(self):
        self.p.kill()
        self.log.write(b"no answer within 30 s")
        return ""

    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        self.p.wait()
        self.out.close()
        self.log.close()


def text(tok):
    return bytes.fromhex(tok[1:]).decode("utf-8", "surrogateescape").encode("utf-8", "backslashreplace").decode()


def dumped(ans):
    nodes, path = [], []
    for rec in ans.split(";")[:-1]:
        t = rec.split(" ")
        if not t[0].isdigit():
            return [{"p": [t[0]], "a": [], "v": 0}]
        depth, kind, val = int(t[0]), int(t[1]), int(t[2])
        name, uuid, descr, dt, mn, mx, unit, dflt = (text(x) for x in t[3:11])
        a = {"type": KINDS.get(kind, f"kind {kind}"), "uuid": uuid, "description": descr, "datatype": dt, "min": mn, "max": mx,
             "unit": unit, "default": dflt}
        a = {k: v for k, v in a.items() if v}
        if int(t[11]):
            a["allowed"] = [text(x) for x in t[12:]]
        path = path[:depth - 1] + [name]
        nodes.append({"p": path, "a": enc_attrs(a), "v": val})
    return nodes


def perform(e, lib: Driver, d: Path):
    """one event; returns it with what was observed"""
    e = dict(e)
    op = e["op"]
    if op in ("read", "write", "dump"):
        ans = lib.ask(op, e["slot"], *([e["file"]] if "file" in e else []))
        if ans is None or ans == "none":
            return dict(e, op="crash-in-" + op)
        if op == "write":
            try:
                e["nodes"] = decode((d / e["file"]).read_bytes())
            except Exception as x:
                return dict(e, op=f"file-not-readable: {x}")
        else:
            e["nodes"] = dumped(ans)
    elif op in ("leaves", "uuids"):
        ans = lib.ask(op, e["slot"], "list.json")
        if ans is None:
            return dict(e, op="crash-in-" + op)
        e["count"] = int(ans)
        try:
            data = json.loads((d / "list.json").read_text())
            key = {"leaves": "leafpaths", "uuids": "leafuuids"}[op]
            if list(data) != [key]:
                raise ValueError(f"keys {list(data)}")
            e["list"] = data[key] if op == "leaves" else [[x["path"], x["uuid"]] for x in data[key] if set(x) == {"path", "uuid"}]
        except Exception as x:
            return dict(e, op=f"list-not-readable: {x}"[:120])
    else:
        ans = lib.ask("search", e["slot"], e["root"], ".".join(e["segs"]), e["limit"], int(e["any"]), int(e["leaves"]), *e["scope"])
        if ans is None:
            return dict(e, op="crash-in-search")
        t = ans.split(" ")
        e["count"], e["validation"] = int(t[0]), int(t[1])
        e["found"] = [[int(t[i]), text(t[i + 1])] for i in range(2, len(t), 2)]
    return e


def run_history(libs, files, events, d: Path):
    """files: name -> nodes or a Path; -> observed events"""
    d.mkdir()
    for n, x in files.items():
        if isinstance(x, Path):
            shutil.copy(x, d / n)
        else:
            (d / n).write_bytes(encode(x))
    procs: dict = {}
    out = []
    try:
        for e in events:
            if e["lib"] not in procs:
                procs[e["lib"]] = Driver(libs[e["lib"]], d)
            out.append(perform(e, procs[e["lib"]], d))
            if out[-1]["op"] != e["op"]:
                break
    finally:
        for p in procs.values():
            p.close()
    log = "".join(f.read_text(errors="replace")[:1200] for f in sorted(d.glob("*.log")))
    shutil.rmtree(d)
    return out, log


def judge(chk: Check, libs, items, label):
    """items: [{"files": {name: nodes}, "events": [...]}]"""
    root = chk.scratch.dir("hist")
    broken = []

    def one(x):
        if len(broken) > 40:      # enough seen
            return None
        ev, log = run_history(libs, x[1]["files"], x[1]["events"], root / str(x[0]))
        if len(ev) < len(x[1]["events"]) or ev[-1:] and ev[-1]["op"] != x[1]["events"][-1]["op"]:
            broken.append(x[0])
        return ev, log

    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, enumerate(items)))
    items, res = [it for it, x in zip(items, res) if x], [x for x in res if x]
    f = chk.scratch.dir("trace") / "trace.ndjson"
    write_ndjson(f, [{"files": [{"n": n, "nodes": x if not isinstance(x, Path) else decode(x.read_bytes())} for n, x in it["files"].items()],
                      "ev": ev} for it, (ev, _) in zip(items, res)])
    r = chk.tlc("TraceLib", CFG, env={"TRACE": str(f)})
    got = {p[1]: p[2] for p in r.prints if p[0] == "@V"}
    if set(got) != set(range(1, len(items) + 1)):
        raise Machinery(f"TLC judged {len(got)} of {len(items)} histories\n" + r.out[-3000:])
    chk.traces += len(items)
    for n, (it, (ev, log)) in enumerate(zip(items, res)):
        v = got[n + 1]
        if v[0] != "ok":
            bad = ev[int(v[1]) - 1]
            chk.violation(f"{label}: {sorted(v[2])} in event {v[1]}: " + json.dumps({k: x for k, x in bad.items() if k != "nodes"})[:400],
                          {"files": {k: (str(x) if isinstance(x, Path) else encode(x).hex()) for k, x in it["files"].items()},
                           "events": it["events"], "observed": bad, "log": log})
        else:
            chk.note("histories_ok")
            chk.note("events", len(ev))
            if n % max(1, len(items) // 3) == 0:
                chk.sample({"events": [{k: x for k, x in e.items() if k != "nodes"} for e in ev][:6]})


# ---------------------------------------------------------------------------
# generating

NAMES = ["A", "B", "C", "AB", "Speed", "Is9"]
WORDS = ["", "x", "km/h", "größe", "日本", 'say "hi"', "a,b", "0", "-1.5", "03abc", "é" * 40]
VALIDATE = ["", "", "", "write-only", "read-write", "write-only+consent", "read-write+consent"]


def rand_tree(r, size=30, plain=False):
    """a tree of the format, at random"""
    nodes = []
    long = not plain and r.random() < 0.15
    deep = r.choice([14, 40, 70]) if r.random() < 0.06 else 0
    size = max(size, deep + 12 if deep else 0)

    def words(limit=255):
        if long and r.random() < 0.2:
            return r.choice("qz") * r.choice([limit, limit - 1, 100, 64, 63])
        return r.choice(WORDS)

    def put(p, depth):
        nonlocal size
        size -= 1
        inner = depth == 1 or (depth < 6 and r.random() < 0.5) or depth < deep and r.random() < 0.95
        kind = ("branch" if depth == 1 or r.random() < 0.9 else "struct") if inner else r.choice(
            ["sensor", "actuator", "attribute", "property"])
        a = {"type": kind, "validate": r.choice(VALIDATE)}
        if not plain:
            a["description"] = words(600)
            a["uuid"] = r.choice(["", "%032x" % r.getrandbits(128)])
            if not inner:
                a.update(datatype=r.choice(["uint8", "string[]", "float"]), unit=words(), min=words(), max=words(), default=words())
                if r.random() < 0.3:
                    a["allowed"] = [w for w in (words() for _ in range(r.choice([1, 2, 5, 255 if long else 3]))) if w]
        nodes.append({"p": p, "a": enc_attrs({k: v for k, v in a.items() if v})})
        if inner and size > 0:
            for n in r.sample(NAMES, r.choice([1, 1, 1, 2] if deep else [0, 1, 2, 2, 3, 4] if depth > 1 else [1, 2, 3])):
                if size > 0:
                    put(p + [n], depth + 1)

    put([r.choice(["Vehicle", "A"])], 1)
    return nodes


def rand_query(r, nodes):
    root = 0 if r.random() < 0.75 else r.randrange(len(nodes))
    base = nodes[root]["p"]
    below = [n["p"] for n in nodes if n["p"][:len(base)] == base]
    segs = r.choice(below)[len(base) - 1:]
    for i in range(len(segs)):
        x = r.random()
        if x < 0.3:
            segs[i] = "*"
        elif x < 0.36:
            segs[i] = r.choice(NAMES)
    if r.random() < 0.4:
        segs = segs[:r.randrange(1, len(segs) + 1)] + ["*"]
    if r.random() < 0.1:
        segs = segs + [r.choice(NAMES)]
    rel = [".".join(p[len(base) - 1:]) for p in below]
    return {"root": root, "segs": segs, "limit": r.choice([1500, 1500, 1500, 1, 2, 3, len(below)]), "any": r.random() < 0.5,
            "leaves": r.random() < 0.5, "scope": r.sample(rel, min(len(rel), r.choice([0, 0, 0, 1, 2])))}


def rand_events(r, names, nodes, n, p_search):
    """reads, writes, lists and searches of both libraries; every slot is read before it is used"""
    ev, held, files = [], {}, dict(nodes)
    for _ in range(n):
        lib, slot = r.choice(["c", "go"]), r.choice([1, 2])
        k = (lib, slot)
        x = r.random()
        if k not in held or x < 0.2:
            f = r.choice(list(files))
            ev.append({"op": "read", "lib": lib, "slot": slot, "file": f})
            held[k] = files[f]
        elif x < 0.2 + p_search:
            ev.append({"op": "search", "lib": lib, "slot": slot, **rand_query(r, held[k])})
        elif x < 0.2 + p_search + min(0.15, (0.8 - p_search) / 3):
            f = r.choice(names)
            ev.append({"op": "write", "lib": lib, "slot": slot, "file": f})
            files[f] = held[k]
        else:
            ev.append({"op": r.choice(["leaves", "uuids", "dump"]), "lib": lib, "slot": slot})
    return ev


def randoms(chk: Check, libs, n, label, length=12, p_search=0.1, plain=False, batch=1500):
    import random

    from .tools import SEED
    for at in range(0, n, batch):
        items = []
        for i in range(at, min(n, at + batch)):
            r = random.Random(f"{label}/{SEED}/{i}")
            files = {"a": rand_tree(r, r.choice([3, 12, 30]), plain), "b": rand_tree(r, r.choice([1, 6, 20]), plain)}
            items.append({"files": files, "events": rand_events(r, ["a", "b", "c"], files, length, p_search)})
        judge(chk, libs, items, label)
        chk.note("random_histories", len(items))
        if chk.violations:
            return
