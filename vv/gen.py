"""Random scenarios inside the domain the specification describes (see DESIGN.md, "Scenario domain")."""
from __future__ import annotations

import random

from .enc import enc_attrs
from .scen import scenario, vfile

INTS = {
    "uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535), "int16": (-32768, 32767),
    "uint32": (0, 2**32 - 1), "int32": (-(2**31), 2**31 - 1),
    "uint64": (0, 2**64 - 1), "int64": (-(2**63), 2**63 - 1),
}
SCALARS = list(INTS) + ["float", "double", "boolean", "string", "numeric"]
WORDS = ["alpha", "beta", "x y", "10", "Größe", "a: b", "#7", "it's", "yes", "null", "1.5", "ON", "[b]", "q\"q", "-", "~"]
ODD = WORDS + ["", "", "two\nlines", " lead", "trail ", "tab\tx", "back\\slash", "end\\", "Ωé€", "100%", "{{x}}", "0x1F", "1e3",
               "true", "2020-01-01", "=", "|", "> x", "&a", "*a", "!t", "@x", "`x`", "a,b", "a;b", "'", "\"", "nul", "1_000", "x: y # z",
               "---", "? k", "<b>&amp;</b>", "*/", "//", "\"\"\"", "$x", "%s"]
LINE = [x for x in ODD if "\n" not in x]
PLAIN = ["alpha", "beta", "gamma", "delta", "eps", "zeta"]
NAMES = ["A", "B", "C", "Door", "Seat", "Body", "IsOn", "HasX", "Speed", "Pos1", "X9", "Cabin", "Mode", "Lamp"]
BADNAMES = ["lower", "Under_score", "With-dash", "9Lives", "Ünder", "aB", "Line\n"]
BRANCHNAMES = ["Door", "Seat", "Body", "Cabin", "Lamp", "HVAC", "Wheel", "ADAS", "Chassis2", "Mirror", "Trailer", "Powertrain", "OBD", "LowVoltage"]
LEAFNAMES = ["Speed", "Mode", "Angle", "ID", "X9", "Level", "IsOn2", "Torque", "PressureLow", "ABSError"]
INSTNAMES = ["Left", "Right", "Mid", "Front", "Rear"]

QUANT = {"length": {"definition": "d"}, "temp": {"definition": "t", "comment": "c"}, "ratio": {"definition": "r"}}
UNITS = {
    "m": {"definition": "metre", "unit": "meter", "quantity": "length", "allowed-datatypes": ["numeric"]},
    "degC": {"definition": "celsius", "unit": "celsius", "quantity": "temp", "allowed-datatypes": ["float", "int16"]},
    "pct": {"definition": "percent", "unit": "percent", "quantity": "ratio", "allowed-datatypes": ["uint16"]},
    "txt": {"definition": "text", "unit": "text", "quantity": "ratio", "allowed-datatypes": ["string", "boolean"]},
    "arr": {"definition": "arrays", "unit": "arrays", "quantity": "ratio", "allowed-datatypes": ["uint8[]", "double", "numeric[]", "int8"]},
    "big": {"definition": "big", "unit": None, "quantity": "ratio", "allowed-datatypes": ["uint64", "int64", "double"]},
}
UNIT_OK = {
    "m": ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"],
    "degC": ["float", "int16", "int8"],
    "pct": ["uint16", "uint8"],
    "txt": ["string", "boolean"],
    "arr": ["double", "int8"],
    "big": ["uint64", "uint32", "uint16", "uint8", "int64", "int32", "int16", "int8", "double"],
}

VALIDATE = ["write-only", "read-write", "write-only+consent", "read-write+consent"]

DEFAULTS = dict(
    nodes=8, depth=3, p_instances=0.0, p_notinst=0.2, p_special=0.0, p_delete=0.0, overlays=(0, 0), p_ovl_new=0.2,
    p_ext=0.0, p_validate=0.0, p_null=0.0, p_include=0.0, types=0.0, units=0.3, p_bad=0.0, p_constraints=0.5, p_badname=0.0,
    p_shuffle=0.3, words=False, values=None, p_meta=0.4, p_struct_ref=0.5, ovl_hard=0.0, single_file=False, inst_depth=2, p_ws=0.0,
    p_missing=0.0, options=False, p_roots=0.0, p_ovl_inst=0.0, p_misplace=0.0,
    p_badref=0.0, p_badunit=0.0, goodnames=False, p_echo=0.07, p_oddinst=0.12, p_far=0.012, unique=False,
)


class Gen:
    def __init__(self, rng: random.Random, **kw):
        self.r = rng
        self.f = dict(DEFAULTS)
        self.f.update(kw)
        self.cnt = 0

    def p(self, key):
        return self.r.random() < self.f[key]

    def words(self, which="words"):
        return {"wide": ODD + ["𝄞😀"], "odd": ODD, "line": LINE, True: WORDS}.get(self.f[which], PLAIN)

    def text(self):
        self.cnt += 1
        if self.f["words"] and self.r.random() < 0.5:
            return self.r.choice(self.words())
        return f"{self.r.choice(PLAIN)} {self.cnt}"

    # --- values -----------------------------------------------------------
    def value(self, dt):
        r = self.r
        if dt in INTS:
            lo, hi = INTS[dt]
            return r.choice([lo, hi, 0 if lo <= 0 <= hi else lo, min(hi, 1), r.randint(max(lo, -300), min(hi, 300)), r.randint(lo, hi)])
        if dt in ("float", "double"):
            return r.choice([0.5, -1.25, 3, 1e10, 0.1, 0.0, -2.0, 100])
        if dt == "numeric":
            return r.choice([1, 2.5, -7])
        if dt == "boolean":
            return r.choice([True, False])
        return r.choice(self.words("values" if self.f["values"] else "words"))

    def leaf(self, kinds=("sensor", "actuator", "attribute"), structs=()):
        r = self.r
        a = {"type": r.choice(kinds), "description": self.text()}
        if structs and self.p("p_struct_ref"):
            a["datatype"] = r.choice(structs) + r.choice(["", "[]"])
            return self.meta(a)
        dt = r.choice(SCALARS)
        arr = r.random() < 0.25
        a["datatype"] = dt + ("[]" if arr else "")
        if self.p("p_constraints"):
            m = r.randrange(6)
            if m == 0 and dt in INTS or dt in ("float", "double") and m == 1:
                x, y = sorted([self.value(dt), self.value(dt)])
                if r.random() < 0.8:
                    a["min"] = x
                if r.random() < 0.8:
                    a["max"] = y
            if m in (2, 3) and dt != "boolean":
                vals = []
                for _ in range(r.randint(1, 3)):
                    v = self.value(dt)
                    if v not in vals:
                        vals.append(v)
                a["allowed"] = vals
            if m in (1, 3, 4):
                if arr:
                    n = r.randint(0, 3)
                    pool = a.get("allowed")
                    a["default"] = [r.choice(pool) if pool else self.value(dt) for _ in range(n)]
                    if n and r.random() < 0.5:
                        a["arraysize"] = n
                else:
                    a["default"] = r.choice(a["allowed"]) if "allowed" in a else self.value(dt)
            elif arr and r.random() < 0.3:
                a["arraysize"] = r.randint(1, 5)
        if self.use_units and r.random() < 0.4 and dt != "numeric":
            ok = [u for u in UNIT_OK if dt in UNIT_OK[u]]
            if ok:
                u = r.choice(ok)
                a["unit"] = r.choice([u, UNITS[u]["unit"] or u])
        return self.meta(a)

    def meta(self, a):
        r = self.r
        if self.p("p_meta"):
            k = r.choice(["comment", "deprecation", "fka", "constUID", "comment"])
            if k == "fka":
                a[k] = [f"Old.N{r.randint(1, 9)}"] * 1
            elif k == "constUID":
                a[k] = "0x" + r.choice([f"{r.randrange(2**32):08X}", f"{r.randrange(2**32):08x}", r.choice(["0000A00f", "0000a00F"])])
            else:
                a[k] = self.text()
        if self.p("p_ext"):
            for _ in range(r.randint(1, 2)):
                a[r.choice(["e1", "e2", "quality", "source"])] = self.extval()
        if self.f["p_validate"] and self.p("p_validate"):
            a["validate"] = r.choice(VALIDATE) if r.random() < 0.9 else r.choice([self.text(), 5, True, ["x", 1], [], "consent", "no read-write"])
        return a

    def extval(self, depth=0):
        r = self.r
        c = r.randrange(8)
        if c == 0:
            return r.randint(-5, 100000)
        if c == 1:
            return r.choice([0.25, 1.0, -3.5])
        if c == 2:
            return r.choice([True, False])
        if c == 3:
            return [r.choice(PLAIN) for _ in range(r.randint(0, 3))]
        if c in (4, 5) and depth < 2:
            return {k: self.extval(depth + 1) for k in r.sample(["k1", "k2", "k3"], r.randint(1, 2))}
        if c == 6 and self.p("p_null"):
            return None
        return self.text()

    # --- instances --------------------------------------------------------
    def inst_entry(self, used):
        r = self.r
        while True:
            c = r.randrange(5)
            if self.p("p_oddinst"):
                e, names = r.choice([([1, 2], ["1", "2"]), (7, ["7"]), ([3], ["3"]), ([4, "Left"], ["4", "Left"]),
                                     (True, ["True"]), ([False], ["False"])])
            elif c == 0:
                lo = r.choice([0, 1, 1, 2, 9])
                e, names = f"Row[{lo},{lo + r.randint(1, 2)}]", None
                names = [f"Row{i}" for i in range(int(e[4:-1].split(",")[0]), int(e[4:-1].split(",")[1]) + 1)]
            elif c == 1:
                names = r.sample(INSTNAMES, r.randint(1, 2))
                e = list(names)
            elif c == 2:
                names = [r.choice(INSTNAMES)]
                e = names[0]
            elif c == 3:
                lo = r.randint(1, 3)
                e, names = f"P[{lo},{lo}]x", [f"P{lo}x"]
            else:
                e, names = ["Q[1,2]", "Z"], ["Q1", "Q2", "Z"]
            if not set(names) & used:
                used |= set(names)
                return e, names

    def instances(self):
        r = self.r
        used = set()
        n = r.choice([1, 1, 2, 2, 3]) if self.f["inst_depth"] >= 2 else 1
        es, paths, roots = [], [], [()]
        total = 1
        for _ in range(n):
            e, names = self.inst_entry(used)
            if total * len(names) > 8:
                break
            es.append(e)
            new = [p + (m,) for m in names for p in roots]
            paths += new
            if isinstance(e, list) or len(names) > 1:
                roots = new
                total *= len(names)
        v = es[0] if len(es) == 1 and isinstance(es[0], str) and r.random() < 0.5 else es
        return v, paths

    # --- a whole model ----------------------------------------------------
    def model(self):
        r, f = self.r, self.f
        self.use_units = self.p("units")
        root = r.choice(BADNAMES) if self.p("p_badname") else r.choice(["Vehicle", "V", "Root"])
        defs = {root: {"type": "branch", "description": self.text()}}
        branches = [root]
        inst = {}
        types, structs = self.types_tree() if r.random() < f["types"] else ([], [])
        for _ in range(r.randint(max(1, f["nodes"] // 2), f["nodes"])):
            parent = r.choice(branches)
            name = r.choice(BADNAMES) if self.p("p_badname") else r.choice(NAMES)
            if f["p_far"] and len(branches) > 1 and self.p("p_far"):     # a long chain of branches
                for _ in range(r.randint(3, 9)):
                    parent += "." + r.choice(NAMES[:6])
                    if parent not in branches:
                        defs[parent] = {"type": "branch", "description": self.text()}
                        branches.append(parent)
            if self.p("p_echo"):
                name = self.echo(parent, defs)
            if f["unique"]:         # names of branches are given once, those of leaves once below a branch
                name = r.choice(LEAFNAMES)
            k = f"{parent}.{name}"
            if k in defs:
                continue
            if r.random() < 0.35 and k.count(".") < f["depth"]:
                if f["unique"]:
                    k = f"{parent}.{BRANCHNAMES[len(branches) % len(BRANCHNAMES)]}"
                a = {"type": "branch", "description": self.text()}
                self.meta(a)
                if r.random() < f["p_instances"] and sum(len(x) for x in inst.values()) < 12:
                    v, paths = self.instances()
                    a["instances"] = v
                    inst[k] = paths
                if r.random() < 0.1:
                    a["aggregate"] = r.choice([True, False])
                branches.append(k)
            else:
                a = self.leaf(structs=structs)
                if f["goodnames"] and a["datatype"] == "boolean" and not name.startswith(("Is", "Has")):
                    k = f"{parent}.Is{name}"
            if r.random() < f["p_instances"] and self.p("p_notinst") and parent in inst:
                a["instantiate"] = False
            if self.p("p_delete") and r.random() < 0.5:
                a["delete"] = r.choice([True, True, False])
            defs[k] = a
        if f["unique"] and r.random() < 0.6:      # the version of the catalogue
            v = r.choice(["VersionVSS", "VersionVSS", "Version"])
            defs[f"{root}.{v}"] = {"type": "branch", "description": self.text()}
            for n in r.sample(["Major", "Minor", "Patch", "Label"], r.randint(1, 4)):
                a = defs[f"{root}.{v}.{n}"] = {"type": "attribute", "datatype": "string" if n == "Label" else "uint32", "description": self.text()}
                if r.random() < 0.85:
                    a["default"] = "rc1" if n == "Label" else r.choice([0, 1, 4, 12])
        if self.p("p_missing"):
            k = r.choice(branches)
            if r.random() < 0.5 and k in defs:
                del defs[k]
            else:
                defs.get(k, {}).pop("description", None)
        if self.p("p_roots"):
            k = r.choice(["Other", "Other.X", "Other.Y.Z", root + "x.A", root + "x"])
            defs[k] = self.leaf() if "." in k else {"type": "branch", "description": self.text()}
        if self.p("p_badref"):
            pool = [k for k in defs if "datatype" in defs[k]]
            if pool:
                refs = ["Nope", "Nope[]", root, r.choice(pool), "S", "Types.N", "T.S.a", "Types.S[]", "T.Pos"]
                for x in structs[:2]:
                    for y in (x, x.rsplit(".", 1)[1]):
                        refs += [y + "[][]", y + "[2]", y + " ", y.lower(), y + ".", "." + y, y + "x", y[:-1], y + "[", "[]" + y, y + "[ ]"]
                if r.random() < 0.2:
                    refs = [r.choice(SCALARS) + x for x in ("[][]", "[3]", " ", "[", "[] ", "x")]
                defs[r.choice(pool)] = {"type": "sensor", "description": "bad ref", "datatype": r.choice(refs)}
        if self.p("p_badunit"):
            pool = [k for k in defs if "datatype" in defs[k]]
            if pool:
                for k in r.sample(pool, min(len(pool), r.choice([1, 1, 3]))):
                    if r.random() < 0.4:
                        defs[k] = {"type": "sensor", "description": "unit", "datatype": r.choice(["uint8", "float", "string", "uint16"]),
                                   "unit": r.choice(["bar", "baz"])}
                        continue
                    defs[k]["unit"] = r.choice(list(UNITS) + ["percent", "metre", "nope", "length", "bar", "baz", "qux", "baz", "bar"])
        if self.p("p_misplace"):
            for _ in range(r.randint(1, 2)):
                k = r.choice(list(defs))
                c = r.randrange(4)
                if c == 0:
                    defs[k]["type"] = r.choice(["branch", "struct", "property", "sensor", "attribute"])
                elif c == 1:
                    defs[k + ".Sub"] = {"type": r.choice(["branch", "struct"]), "description": self.text()}
                elif c == 2:
                    defs[k + ".Sub"] = self.leaf(("sensor", "property", "attribute"))
                else:
                    defs[k + ".Str"] = {"type": "struct", "description": self.text()}
                    defs[k + ".Str.p"] = self.leaf(("property", "property", "property", "sensor"))
        self.inst, self.defs, self.branches, self.root = inst, defs, branches, root
        if f["p_bad"] and r.random() < f["p_bad"]:
            self.spoil(defs)
        return types, structs

    def echo(self, parent, defs):
        """the name of a node further up, or a variant of the name of a node beside"""
        r = self.r
        beside = [k.rsplit(".", 1)[1] for k in defs if k.rpartition(".")[0] == parent]
        if not beside or r.random() < 0.5:
            return r.choice(parent.split("."))
        x = r.choice(beside)
        vs = [x + "1", x + "_1", x + "x", x + "On", x + "_On", x[:-1] or "A", "Is" + x]
        if x[-1].isdigit():
            vs += [x[:-1] + "_" + x[-1], x + "0"]
        if not self.f["goodnames"]:
            vs += [x[0].lower() + x[1:], x.upper(), x + "_"]
        return r.choice(vs)

    def spoil(self, defs):
        """one violation of the metamodel somewhere"""
        r = self.r
        k = r.choice(list(defs))
        a = defs[k]
        leafy = "datatype" in a
        c = r.randrange(12 if leafy else 4)
        if c == 0:
            a.pop("description", None)
        elif c == 1:
            a["type"] = r.choice(["sensr", "struct", "property"])
        elif c == 2:
            a["constUID"] = r.choice(["0x1234", "12345678", "0xGGGGGGGG", "0x123456789", "0x12345678\n", "0X12345678", " 0x12345678"])
        elif c == 3:
            a[r.choice(["unit", "min", "datatype", "default"])] = r.choice(["uint8", None]) if not leafy else "foo"
        elif c == 4:
            a["datatype"] = r.choice(["uint9", "Foo.Bar", "uint8[][]", "strin", "UINT8"])
        elif c == 5:
            dt = a["datatype"].removesuffix("[]")
            if dt in INTS:
                lo, hi = INTS[dt]
                v = r.choice([lo - 1, hi + 1, "a", 0.5])
                pool = a.pop("allowed", None)
                good = [self.value(dt) for _ in range(r.randint(0, 2))]
                if pool and r.random() < 0.5:
                    a["allowed"] = pool
                    v, good = r.choice([v, 77 if 77 not in pool else 78]), [r.choice(pool) for _ in good]
                a["default"] = good + [v] if a["datatype"].endswith("[]") else v
                a.pop("arraysize", None)
        elif c == 6:
            a["unit"] = "nosuchunit"
        elif c == 7:
            a["arraysize"] = 2
        elif c == 8:
            a.pop("min", None)
            a[r.choice(["min", "max"])] = r.choice([3, 0, 0.0])
            a["allowed"] = a.get("allowed", ["q"] if a["datatype"].removesuffix("[]") == "string" else [])
        elif c == 9:
            a.pop("datatype")
        elif c == 10:
            a["default"] = [] if not a["datatype"].endswith("[]") else "x"
        else:
            if "allowed" in a and a["allowed"]:
                a["default"] = "none of them"
            else:
                a["allowed"] = [True, "x"]

    def types_tree(self):
        r = self.r
        p_ext, self.f["p_ext"] = self.f["p_ext"], self.f["p_ext"] if r.random() < self.f["p_bad"] else 0.0
        try:
            return self._types_tree()
        finally:
            self.f["p_ext"] = p_ext

    def _types_tree(self):
        r = self.r
        root = r.choice(BADNAMES) if self.p("p_badname") else r.choice(["Types", "T"])
        defs = {root: {"type": "branch", "description": self.text()}}
        nss = [root]
        for _ in range(r.randint(0, 3)):
            k = f"{r.choice(nss)}.{r.choice(['N', 'Ns', 'M'])}"
            if k not in defs:
                defs[k] = {"type": "branch", "description": self.text()}
                nss.append(k)
        structs = []
        for _ in range(r.randint(1, 4)):
            k = f"{r.choice(nss)}.{r.choice(['S', 'St', 'Pos', 'Struct'])}"
            if k not in defs:
                defs[k] = self.meta({"type": "struct", "description": self.text()})
                structs.append(k)
        full = list(structs)
        for s in structs:
            for _ in range(r.randint(1, 3)):
                k = f"{s}.{r.choice(['a', 'b', 'C', 'Xy'])}"
                cand = [t for t in full if t != s]
                # short names visible from s: the namespace of t encloses s, innermost first
                shorts = []
                for t in cand:
                    ns, short = t.rsplit(".", 1)
                    if (k + ".").startswith(ns + "."):
                        shorts.append(short)
                use = cand if r.random() < 0.5 else shorts
                defs[k] = self.leaf(("property",), structs=use)
        if r.random() < 0.35:      # spread over two type files, the second also changing the first
            a, b = {}, {}
            for k, v in defs.items():
                (a if k == root or r.random() < 0.5 else b)[k] = v
            for k in list(a):
                if r.random() < 0.3:
                    b[k] = {"description": self.text()}
            return [a, b], full
        return [defs], full

    # --- includes ---------------------------------------------------------
    def split(self, content, top_dir, name, idirs, files, depth=0):
        """Move parts of content (names relative to the file's prefix) into included files."""
        r = self.r
        incs = []
        branches = [k for k in content if any(x.startswith(k + ".") for x in content)]
        r.shuffle(branches)
        used = []
        for b in branches[: r.randint(0, 2)]:
            sub = [k for k in content if k.startswith(b + ".")]
            if not sub or any(b == i or b.startswith(i + ".") or i.startswith(b + ".") for i in used):
                continue
            used.append(b)
            self.ninc += 1
            target = r.choice(["", "", "parts/"]) + f"inc{self.ninc}.vspec"
            cut = r.random() < 0.7
            part = {}
            for k in sub:
                v = content.pop(k) if r.random() < 0.9 else {**content[k], "description": self.text()}
                part[k[len(b) + 1:] if cut else k] = v
            here = name.rsplit("/", 1)[0] if "/" in name else ""
            dirs = [top_dir] + list(dict.fromkeys(idirs)) + [here]
            at = r.randrange(len(dirs))
            path = (dirs[at] + "/" if dirs[at] else "") + target
            if any(f["name"] == path for f in files):
                continue
            if depth < 2 and r.random() < 0.5:
                sub_incs = self.split(part, top_dir, path, idirs, files, depth + 1)
            else:
                sub_incs = []
            files.append(self.placed(vfile(path, part, sub_incs)))
            for d in set(dirs[at + 1:] + ["elsewhere"]) - set(dirs[: at + 1]):   # decoys the search must not reach
                p = (d + "/" if d else "") + target
                if r.random() < 0.4 and not any(f["name"] == p for f in files):
                    files.append(vfile(p, {"Decoy": {"type": "branch", "description": "decoy"}}))
            incs.append((target, b if cut else ""))
            if cut and r.random() < 0.3:   # the same file once more, elsewhere
                b2 = b + r.choice(["Two", "X", "1"])
                if b2 not in content and not any(b2 == i[1] for i in incs):
                    kind = content[b] if b in content else {"type": "branch", "description": "x"}
                    content[b2] = {**{k: v for k, v in kind.items() if k != "instances"}, "description": self.text()}
                    incs.append((target, b2))
        return incs

    def placed(self, f):
        if f["incs"]:
            f["incpos"] = self.r.randint(0, len(f["entries"]))
        return f

    def overlay(self, n):
        """one overlay: changes to existing nodes, new nodes, instance-specific definitions"""
        r, f = self.r, self.f
        o = {}
        keys = list(self.defs)
        for k in r.sample(keys, min(len(keys), r.randint(1, 3))):
            base = self.defs[k]
            a = {}
            for _ in range(r.randint(1, 3)):
                c = r.randrange(9)
                if c == 0:
                    a["description"] = self.text()
                elif c == 1:
                    a["comment"] = self.text() if r.random() < 0.7 or not f["p_null"] else None
                elif c == 2 and f["p_ext"]:
                    a[r.choice(["e1", "e2", "quality", "source"])] = self.extval()
                elif c == 3 and "datatype" in base and r.random() < 0.5:
                    a["type"] = r.choice(["sensor", "actuator", "attribute"])
                elif c == 4 and ("min" in base or "max" in base):
                    a["max"] = r.choice([base.get("max", 5), 1000]) if r.random() < 0.8 or not f["p_null"] else None
                elif c == 5 and f["p_null"] and r.random() < f["p_null"]:
                    a[r.choice(["unit", "default", "deprecation", "allowed"] if "datatype" in base else ["comment"])] = None
                elif c == 6 and "allowed" in base and isinstance(base["allowed"], list):
                    a["allowed"] = base["allowed"] + [self.value(base["datatype"].removesuffix("[]"))]
                elif c == 7 and f["p_delete"] and r.random() < f["p_delete"] * 2:
                    a["delete"] = r.choice([True, False])
                elif c == 5:
                    a[r.choice(["comment", "comment", "description"])] = ""
                elif c == 7 and k.rpartition(".")[0] in self.inst and f["p_notinst"] and not f["p_special"]:
                    a["instantiate"] = r.choice([False, False, True])
                elif c == 8 and "datatype" in base and r.random() < f["ovl_hard"]:
                    new = self.leaf()
                    a.update(new)
                else:
                    a["deprecation"] = self.text()
            if a:
                o[k] = a
        if self.p("p_ovl_inst"):
            b = r.choice(self.branches[1:] or self.branches)
            if b not in self.inst:
                o.setdefault(b, {})["instances"] = self.instances()[0]
            elif not f["p_special"]:
                o.setdefault(b, {})["instances"] = r.choice([self.instances()[0], None, []])
        if self.p("p_ovl_inst") and not f["p_special"]:
            ks = [k for k in keys if k.rpartition(".")[0] in self.inst]
            if ks:
                o.setdefault(r.choice(ks), {})["instantiate"] = r.choice([False, False, True])
        if self.p("p_ovl_new"):
            b = r.choice(self.branches)
            k = f"{b}.New{n}"
            o[k] = self.leaf()
        return o

    def specials(self):
        """definitions below concrete instances"""
        r, f = self.r, self.f
        o = {}
        for b, paths in self.inst.items():
            # b itself may lie below another instantiated branch: then address it through a concrete instance
            if any(b.startswith(x + ".") for x in self.inst):
                if r.random() < 0.6:
                    continue
                outer = [x for x in self.inst if b.startswith(x + ".")]
                if len(outer) > 1:
                    continue
                x = outer[0]
                first = b[len(x) + 1:].split(".")[0]
                if self.defs.get(f"{x}.{first}", {}).get("instantiate") is False:
                    prefixes = [b]
                else:
                    tops = [q for q in self.inst[x] if not any(len(z) > len(q) and z[: len(q)] == q for z in self.inst[x])]
                    prefixes = [x + "." + ".".join(r.choice(tops)) + b[len(x):]]
            else:
                prefixes = [b]
            pre = r.choice(prefixes)
            leaves = [q for q in paths if not any(len(z) > len(q) and z[: len(q)] == q for z in paths)]
            generic = [k for k in self.defs if k.startswith(b + ".")]
            for q in r.sample(leaves, min(len(leaves), r.randint(1, 2))):
                at = pre + "." + ".".join(q)
                if r.random() < 0.3:
                    o[at] = r.choice([{"description": self.text()},
                                      {"type": "branch", "description": self.text()},
                                      {"comment": self.text()}])
                for g in r.sample(generic, min(len(generic), r.randint(0, 2))):
                    rel = g[len(b) + 1:]
                    if any(g.startswith(x + ".") for x in self.inst if x != b and x.startswith(b + ".")):
                        continue
                    if self.defs.get(b + "." + rel.split(".")[0], {}).get("instantiate") is False:
                        continue
                    src = self.defs.get(g, {})
                    c = r.randrange(6)
                    if f["p_ext"] and r.random() < 0.15 and "datatype" in src:
                        a = {"type": src.get("type", "sensor"), "description": self.text(), "datatype": src["datatype"]}
                        a["quality"] = {k: self.extval(1) for k in r.sample(["k1", "k2", "k3"], 2)}
                        src.setdefault("quality", {"k1": "generic", "k4": {"x": 1}})
                    elif c == 0:
                        a = {"description": self.text()}
                    elif c == 1:
                        a = {"comment": self.text()}
                    elif c == 2 and "datatype" in src:
                        a = self.leaf()
                        if r.random() < 0.5:
                            a["datatype"] = src["datatype"]
                            for x in ("min", "max", "default", "allowed", "unit", "arraysize"):
                                a.pop(x, None)
                    elif c == 3 and f["p_delete"]:
                        a = {"delete": r.choice([True, False])}
                    elif c == 4 and f["p_ext"]:
                        a = {"e1": self.extval()}
                    elif "datatype" in src:
                        a = {"type": src.get("type", "sensor"), "description": self.text(), "datatype": src["datatype"]}
                    else:
                        a = {"type": "branch", "description": self.text()}
                    o[f"{at}.{rel}"] = a
                if r.random() < 0.4:
                    o[f"{at}.Extra{r.randint(1, 2)}"] = self.leaf()
        return o

    def scenario(self):
        r, f = self.r, self.f
        types, structs = self.model()
        main = dict(self.defs)
        files = []
        incs = []
        ovl = []
        if self.inst and self.p("p_special"):
            sp = self.specials()
            if sp:
                if r.random() < 0.5:
                    main.update({k: v for k, v in sp.items() if k not in main})
                else:
                    ovl.append(sp)
        for n in range(r.randint(*f["overlays"])):
            ovl.append(self.overlay(n))
        r.shuffle(ovl)
        # move some subtrees to included files
        self.ninc = 0
        idirs, top = [], ""
        if self.p("p_include"):
            idirs = r.choice([[], ["d1"], ["d1", "d2"], ["d2", "d1"], ["lib/a", "d1", "lib/a"]])
            top = r.choice(["", "", "model"])
            pre = top + "/" if top else ""
            incs = self.split(main, top, pre + "m.vspec", idirs, files)
        else:
            pre = ""
        items = list(main.items())
        if self.p("p_shuffle"):
            r.shuffle(items)
        files.insert(0, self.placed(vfile(pre + "m.vspec", items, incs)))
        overlays = []
        for n, o in enumerate(ovl):
            name = r.choice(["", "", "ov/"]) + f"o{n}.vspec"
            overlays.append(name)
            inc = []
            if self.p("p_include"):
                inc = self.split(o, name.rsplit("/", 1)[0] if "/" in name else "", name, idirs, files)
            files.append(self.placed(vfile(name, o, inc)))
        tfiles = []
        for n, t in enumerate(types):
            tfiles.append(f"t{n}.vspec")
            items = list(t.items())
            if self.p("p_shuffle"):
                r.shuffle(items)
            files.append(vfile(f"t{n}.vspec", items))
        extra = {}
        if self.use_units:
            clash = {}
            if f["p_badunit"] and r.random() < 0.4:   # one unit's name is another one's key
                clash = {"bar": {"definition": "d", "unit": "baz", "quantity": "length", "allowed-datatypes": [r.choice(["uint8", "float", "string"])]},
                         "baz": {"definition": "d", "unit": r.choice([None, "qux", "bar"]), "quantity": "length",
                                 "allowed-datatypes": [r.choice(["uint16", "float", "string"])]}}
                clash = dict(sorted(clash.items(), reverse=r.random() < 0.5))
            for opt, default, all_, decoy in (("units", "units.yaml", {**UNITS, **clash}, {"m": {"definition": "other"}}),
                                              ("quantities", "quantities.yaml", QUANT, {"length": {"definition": "other"}})):
                if r.random() < 0.6:
                    files.append({"name": pre + default, "entries": unit_entries(all_), "incs": []})
                    continue
                ks = list(all_)                     # given explicitly, possibly split in two
                r.shuffle(ks)
                n = r.choice([0, 0, 1, 2])
                parts = [p for p in (ks[:n], ks[n:]) if p]
                extra[opt] = [r.choice(["", "", "conf/"]) + f"{opt[0]}{i}.yaml" for i in range(len(parts))]
                for u, p in zip(extra[opt], parts):
                    files.append({"name": u, "entries": unit_entries({k: all_[k] for k in p}), "incs": []})
                    if "/" in u and r.random() < 0.3:   # must be ignored: only the directory of the model counts
                        files.append({"name": "conf/" + ("units.yaml" if opt == "quantities" else "quantities.yaml"),
                                      "entries": unit_entries({"m": {"definition": "other"}} if opt == "quantities" else
                                                              {"length": {"definition": "o"}, "temp": {"definition": "o"}, "ratio": {"definition": "o"}}), "incs": []})
                        files = list({x["name"]: x for x in files}.values())
                if r.random() < 0.3:                # must be ignored: files were given
                    files.append({"name": pre + default, "entries": unit_entries(decoy), "incs": []})
        if f["options"]:
            if r.random() < 0.3:
                extra["strict"] = True
            extra["aborts"] = r.sample(["name-style", "unknown-attribute"], r.choice([0, 0, 1, 2]))
            extra["exts"] = r.sample(["e1", "e2", "quality", "source"], r.choice([0, 1, 2, 4]))
        elif f["p_ext"] and r.random() < 0.4:
            extra["exts"] = r.sample(["e1", "e2", "quality", "source"], r.choice([1, 2, 4]))
        return scenario(files, main=pre + "m.vspec", overlays=overlays, types=tfiles, idirs=idirs, **extra)


def unit_entries(d):
    from .enc import enc

    return [{"p": [k], "v": enc(v)} for k, v in d.items()]


def export_options(r, tool, s, opt):
    """options of the exporters, at random"""
    s["expand"] = r.random() < 0.7
    s["uuid"] = r.random() < 0.3
    s["extall"] = r.random() < 0.4 if tool in ("json", "yaml", "jsonschema") else False
    if r.random() < 0.5:
        s["exts"] = r.sample(["e1", "e2", "quality", "source"], r.choice([1, 2, 4]))
    if s["types"] and tool in ("json", "yaml", "csv"):
        opt["typesout"] = r.random() < 0.4
    if tool == "id":
        opt["casesens"] = r.random() < 0.3
    opt["pretty"] = r.random() < 0.3
    if tool == "jsonschema":
        opt["noadd"] = r.random() < 0.4
        opt["reqall"] = r.random() < 0.4
    if tool == "franca":
        opt["fversion"] = r.choice(["", "", "5.0", "v1.2-rc"])
    if tool == "tree":
        opt["attrs"] = r.sample(["description", "datatype", "unit", "min", "max", "allowed", "default", "comment", "deprecation",
                                 "fka", "quality", "source", "e1"], r.choice([0, 1, 3, 6]))
    if tool == "graphql":
        opt["gql"] = r.sample([{"n": "source", "d": "Source System"}, {"n": "q2", "d": "x"}], r.choice([0, 0, 1, 2]))
    if tool == "binary" and r.random() < 0.5:
        s["exts"] = s["exts"] + ["validate"]
    if tool == "go":
        opt["package"] = r.choice(["vss", "vss", "model2"])
        opt["longnames"] = r.random() < 0.4
    if tool == "ddsidl":
        opt["idlall"] = r.random() < 0.4
    if tool == "apigear":
        opt["layers"] = r.sample([{"n": "unreal", "p": "u"}, {"n": "cpp", "p": "a/b"}, {"n": "qt5", "p": "q5"},
                                  {"n": "qt6", "p": "/opt/q6"}], r.choice([0, 1, 2, 4]))
