import random
import shutil

from .. import binlib, exporters, gen, mc
from ..enc import enc_attrs
from ..scen import scenario, vfile
from ..tools import SEED, THOROUGH
from . import exports

B = {"type": "branch", "description": "b"}


# the files of spec/MCLib.tla
V1 = [("Vehicle", {"type": "branch", "description": "v"}),
      ("Vehicle.A", {"type": "branch", "description": "a", "validate": "read-write"}),
      ("Vehicle.A.X", {"type": "sensor", "description": "x", "datatype": "uint8", "unit": "km", "min": "0", "max": "9", "default": "1",
                       "allowed": ["1", "größer"], "uuid": "00aa"}),
      ("Vehicle.A.Y", {"type": "actuator", "validate": "write-only+consent", "uuid": "00bb"}),
      ("Vehicle.B", {"type": "branch", "description": "empty"}),
      ("Vehicle.C", {"type": "attribute", "description": "c", "validate": "read-write+consent"})]
V2 = [("W", {"type": "branch", "description": "w"}), ("W.Z", {"type": "sensor", "description": "z", "datatype": "string[]"})]


def nodes_of(t):
    return [{"p": p.split("."), "a": enc_attrs(a)} for p, a in t]


def leaf(**kw):
    return {"type": "sensor", "datatype": "string", "description": "d", **kw}


def edges():
    """lengths and counts at the limits of the format, and just beyond"""
    out = []

    def model(*nodes, exts=()):
        s = scenario([vfile("m.vspec", [("V", B), *nodes])], exts=list(exts))
        out.append(("binary", s, exporters.options()))

    for n in (64, 255, 256, 257, 300):
        for c in ("x", "é"):
            if c == "x" or n % 2 == 0:
                t = c * (n if c == "x" else n // 2)
                model(("V." + "X" * n if c == "x" else "V.X", leaf()))
                model(("V.X", leaf(default=t)))
                model(("V.X", leaf(allowed=["y", t])))
                model(("V.X", leaf(allowed=[t, "y"], default="y")))
                model(("V.X", leaf(validate=t)), exts=["validate"])
        model(("V.X", leaf(datatype="uint8[]", default=[1] * (n // 3))))
        model(("V.X", leaf(allowed=[f"v{i}" for i in range(n)])))
        model(*[(f"V.N{i}", leaf() if i % 9 else B) for i in range(n)])
    for n, k in ((255, 2), (254, 2), (126, 4), (127, 4), (101, 5), (9, 51), (4, 98), (4, 99), (1, 98), (1, 99), (1, 150), (30, 17)):
        p, ns = "V", []
        for i in range(k):
            ns.append((p, B))
            p += "." + "ABC"[i % 3] * n
        model(*ns[1:], (p, leaf()))
    for t in ("x" * 65535, "x" * 65536, "é" * 32767, "é" * 32768, "x" * 256, "日" * 90):
        model(("V.X", leaf(description=t)))
    model(("V.X", leaf(allowed=["é" * 127 + str(i % 10) for i in range(255)])))
    model(("V.X", leaf(allowed=["é" * 127 + str(i) for i in range(10)])))
    return out


def both_read(r, files, writes=True):
    """every file through both libraries, and copies of it through the other one"""
    ev = []
    for f in files:
        a, b = r.sample(["c", "go"], 2)
        ev += [{"op": "read", "lib": a, "slot": 1, "file": f}, {"op": "uuids", "lib": a, "slot": 1}, {"op": "leaves", "lib": a, "slot": 1},
               {"op": "write", "lib": a, "slot": 1, "file": "x"}, {"op": "read", "lib": b, "slot": 2, "file": "x"},
               {"op": "uuids", "lib": b, "slot": 2}, {"op": "leaves", "lib": b, "slot": 2},
               {"op": "write", "lib": b, "slot": 2, "file": "y"}, {"op": "read", "lib": b, "slot": 1, "file": f},
               {"op": "read", "lib": a, "slot": 2, "file": "y"}, {"op": "dump", "lib": a, "slot": 1}]
    return ev


def through(chk, libs, items, label):
    """export, then read, write and list what was exported with the libraries"""
    root = chk.scratch.dir("bin")
    exporters.judge(chk, items, label, root=root)
    made = [f for f in (root / str(n) / "out.binary" for n in range(len(items))) if f.exists()]
    r = random.Random(f"{label}/{SEED}")
    hist = [{"files": {"a": f, "b": r.choice(made)}, "events": both_read(r, ["a", "b"])} for f in made]
    if not chk.violations:
        binlib.judge(chk, libs, hist, label + ", libraries")
    shutil.rmtree(root)


def run(chk):
    libs = binlib.build(chk)
    through(chk, libs, edges(), "limits")
    items = []
    for i in range(4000 if THOROUGH else 300):
        r = random.Random(f"C19/{SEED}/{i}")
        s = gen.Gen(r, p_instances=0.3, p_ext=0.2, p_validate=0.4, words="odd", p_constraints=0.9, overlays=(0, 1), p_meta=0.4).scenario()
        opt = exporters.options()
        gen.export_options(r, "binary", s, opt)
        exporters.fit("binary", s, opt)
        items.append(("binary", s, opt))
    for at in range(0, len(items), 800):
        through(chk, libs, items[at:at + 800], "exports")
    calls = mc.explore_histories(chk, "MCLib", ["RoundTrip", "SettingsSurvive", "ListsAgree"], props=["Isolated"],
                                 consts={"Len1": 5 if THOROUGH else 4, "Slots": 1})
    if len(calls) > 6000 or not THOROUGH:
        calls = random.Random(SEED).sample(calls, min(len(calls), 6000 if THOROUGH else 1200))
    files = {"a": nodes_of(V1), "b": nodes_of(V2)}
    binlib.judge(chk, libs, [{"files": files, "events": c[0]} for c in calls], "all short histories")
    chk.note("design_histories_replayed", len(calls))
    binlib.randoms(chk, libs, 20000 if THOROUGH else 1200, "histories")
