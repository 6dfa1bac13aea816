"""Shared machinery of the checks: scratch space, running the tool, running TLC, verdicts and evidence."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from . import enc as E

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("VV_REPO", "/repo"))      # another tree only while developing the checks
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
CPUS = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """The check itself could not do its work (exit code 2)."""


def tool_env(hashseed="0", **kw):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", ""),
        PYTHONHASHSEED=str(hashseed),
        PYTHONNOUSERSITE="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.environ["VV_SCRATCH"] + "/pyc",
        PYTHONUTF8="1",
        LC_ALL="C.UTF-8",
        COLUMNS="100",
        GOPROXY="off",
        GOTOOLCHAIN="local",
        GOFLAGS="-mod=readonly -buildvcs=false",
    )
    if "VV_REPO" in os.environ:
        env["PYTHONPATH"] = str(REPO / "src")
    env.update(kw)
    return env


class Scratch:
    def __init__(self):
        self.root = Path(tempfile.mkdtemp(prefix="vv-"))
        os.environ["VV_SCRATCH"] = str(self.root)
        self.n = 0

    def dir(self, name="d"):
        self.n += 1
        d = self.root / f"{name}{self.n}"
        d.mkdir(parents=True)
        return d

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def run_jobs(scratch: Scratch, jobs, hashseed="0", preload="vss2json,vss2yaml,vss2csv", workers=CPUS, columns=100):
    """jobs: [{"id","cwd","args"}] -> {id: {"rc","out","err"}}"""
    if not jobs:
        return {}
    d = scratch.dir("jobs")
    jf, rf = d / "jobs.json", d / "res.json"
    for j in jobs:
        j["id"] = str(j["id"])
        j["cwd"] = str(j["cwd"])
        j["args"] = [str(a) for a in j["args"]]
    jf.write_text(json.dumps(jobs))
    p = subprocess.run(
        [PY, str(VERIF / "vv" / "runner.py"), str(jf), str(rf), str(workers)],
        env=tool_env(hashseed, VV_PRELOAD=preload, COLUMNS=str(columns)),
        capture_output=True,
        text=True,
    )
    if p.returncode != 0:
        raise ToolBroken("the tool cannot be imported or run:\n" + p.stderr[-4000:])
    res = json.loads(rf.read_text())
    shutil.rmtree(d, ignore_errors=True)
    return res


class ToolBroken(Machinery):
    pass


# ---------------------------------------------------------------------------
# TLC


class TlcResult:
    def __init__(self):
        self.out = ""
        self.generated = 0
        self.distinct = 0
        self.ok = False
        self.violated = None
        self.prints = []  # parsed PrintT tuples
        self.coverage = {}


def run_tlc(scratch: Scratch, module: str, cfg: str, consts=None, env=None, workers=CPUS, timeout=840, heap="6g",
            simulate=None, extra=()):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    d = scratch.dir("tlc")
    (d / "M.cfg").write_text(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir={d} -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8"
    cmd = ["tlc", "-config", str(d / "M.cfg"), "-metadir", str(d / "meta"), "-workers", str(workers),
           "-noGenerateSpecTE", *extra]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd.append(str(SPEC / f"{module}.tla"))
    try:
        p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=d, errors="replace")
    except subprocess.TimeoutExpired as ex:
        raise Machinery(f"TLC timed out on {module}") from ex
    r = TlcResult()
    r.out = p.stdout + p.stderr
    m = None
    for m in re.finditer(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", r.out):
        pass
    if m:
        r.generated = int(m.group(1).replace(",", ""))
        r.distinct = int(m.group(2).replace(",", ""))
    r.prints = parse_prints(p.stdout)
    v = re.search(r"Error: (Invariant|Property|Action property|Temporal properties?|Deadlock)\s*(\S*)", r.out)
    if v:
        r.violated = v.group(1) + " " + v.group(2)
    r.ok = p.returncode == 0 and "No error has been found" in r.out or (simulate and p.returncode == 0)
    if not r.ok and not r.violated:
        raise Machinery(f"TLC failed on {module} (rc={p.returncode}):\n" + clean(r.out)[-3500:])
    shutil.rmtree(d, ignore_errors=True)
    return r


def clean(out):
    """TLC's output without the printed tuples and parser chatter"""
    skip = re.compile(r'^(<<|\s*"@|Parsing file|Semantic proc|Linting of|Picked up|Computed )')
    return "\n".join(x[:400] for x in out.splitlines() if not skip.match(x))


def parse_prints(text):
    """The tuples <<"@...", ...>> printed by PrintT, which may be laid out over several lines."""
    out, buf, depth = [], None, 0
    for line in text.splitlines():
        if buf is None:
            if not re.match(r'<<\s*"@', line):
                continue
            buf, depth = [], 0
        buf.append(line)
        bare = re.sub(r'"(?:[^"\\]|\\.)*"', "", line)
        depth += len(re.findall(r"<<|\[|\{|\(", bare)) - len(re.findall(r">>|\]|\}|\)", bare))
        if depth == 0:
            out.append(E.parse_tla("\n".join(buf)))
            buf = None
    return out


def write_ndjson(path: Path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, ensure_ascii=True) + "\n")


# ---------------------------------------------------------------------------
# a check: collects what happened, prints verdicts, writes evidence


class Check:
    def __init__(self, prop: str, level="model_checking"):
        self.prop = prop
        self.level = level
        self.scratch = Scratch()
        self.t0 = time.time()
        self.violations = []
        self.known_hit = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.rules = {}
        self.assumptions = []
        kf = VERIF / "known_findings.json"
        self.known = [k for k in json.loads(kf.read_text())["findings"] if k["property"] == prop] if kf.exists() else []

    def tlc(self, *a, **kw):
        r = run_tlc(self.scratch, *a, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def jobs(self, jobs, **kw):
        return run_jobs(self.scratch, jobs, **kw)

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def note(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, what: str, detail=None, key=None):
        """key identifies a specific input/history that may be listed as a known finding"""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append((what, detail))

    def design(self, r: TlcResult, what: str):
        """Report an invariant of the specification that TLC found violated."""
        if r.violated:
            raise Machinery(f"the specification itself violates {r.violated} ({what}):\n{clean(r.out)[-3500:]}")

    def finish(self):
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = dict(self.cov)
        if self.rules:
            cov["rejections_by_rule"] = self.rules
        if self.level == "model_checking":
            cov.update(
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                samples=self.samples or ["none"],
            )
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        rc = 0
        if self.violations:
            rep = VERIF / "evidence" / f"replay-{self.prop}.json"
            rep.write_text(
                json.dumps([{"what": w, "detail": d} for w, d in self.violations[:20]], indent=1, default=str) + "\n"
            )
            for w, d in self.violations[:5]:
                print(f"  {w}")
                if d is not None:
                    print("    " + json.dumps(d, default=str)[:1500])
            print(f"VIOLATION property={self.prop} replay={rep}")
            rc = 1
        else:
            print(
                f"OK property={self.prop} tier={TIER} states={self.states} traces={self.traces} "
                f"wall={time.time() - self.t0:.1f}s"
            )
        self.scratch.close()
        return rc
