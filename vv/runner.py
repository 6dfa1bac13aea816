"""Runs many `vspec` command lines against the code in /repo, each in its own forked process.

    python runner.py JOBS.json RESULTS.json [workers]

JOBS: [{"id", "cwd", "args": [...]}]; RESULTS: {id: {"rc", "out", "err"}}. The tool's modules are
imported once; every job runs in a fresh fork of that state, so process-wide state never leaks
between jobs, exactly as if `vspec ARGS` had been called in `cwd`.
"""
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

JOB_TIMEOUT = 25


def child(job):
    os.chdir(job["cwd"])
    for k, v in job.get("env", {}).items():
        os.environ[k] = v
    out = os.open(job["_o"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    err = os.open(job["_e"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    null = os.open("/dev/null", os.O_RDONLY)
    os.dup2(null, 0)
    os.dup2(out, 1)
    os.dup2(err, 2)
    sys.argv = ["vspec"] + job["args"]
    rc = 0
    try:
        from vss_tools.vspec.cli import cli

        cli(job["args"])
    except SystemExit as e:
        rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except BaseException:
        traceback.print_exc()
        rc = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(rc & 255)


def work(jobs, tmp, n, path):
    res = {}
    hung = 0
    for job in jobs:
        job["_o"] = f"{tmp}/o{n}"
        job["_e"] = f"{tmp}/e{n}"
        pid = os.fork()
        if pid == 0:
            child(job)
        end = time.time() + (JOB_TIMEOUT if hung < 4 else 3)
        status = None
        delay = 0.0005
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = st
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                hung += 1
                break
            time.sleep(delay)
            delay = min(delay * 1.5, 0.01)
        rc = -99 if status is None else os.waitstatus_to_exitcode(status)
        res[job["id"]] = {
            "rc": rc,
            "out": open(job["_o"], errors="replace").read(),
            "err": open(job["_e"], errors="replace").read(),
        }
    with open(path, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def main():
    jobs = json.load(open(sys.argv[1]))
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    import vss_tools

    repo = os.environ.get("VV_REPO", "/repo")
    assert os.path.realpath(vss_tools.__file__).startswith(os.path.realpath(repo) + "/src/"), vss_tools.__file__
    import importlib

    for m in ("cli", "main", "tree", "model", "vspec"):
        importlib.import_module(f"vss_tools.vspec.{m}")
    for m in os.environ.get("VV_PRELOAD", "vss2json,vss2yaml,vss2csv").split(","):
        if m:
            try:
                importlib.import_module(f"vss_tools.vspec.vssexporters.{m}")
            except ImportError:
                pass
    with tempfile.TemporaryDirectory() as tmp:
        pids = []
        workers = max(1, min(workers, len(jobs)))
        for n in range(workers):
            pid = os.fork()
            if pid == 0:
                try:
                    work(jobs[n::workers], tmp, n, f"{tmp}/r{n}")
                finally:
                    os._exit(3)
            pids.append(pid)
        res = {}
        for n, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            if st != 0:
                print("runner worker failed", st, file=sys.stderr)
                sys.exit(3)
            with open(f"{tmp}/r{n}", "rb") as f:
                res.update(pickle.load(f))
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
