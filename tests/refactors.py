#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo on which every check has to stay quiet.

usage: refactors.py CHECKER [NAME...]   applies each edit to a scratch copy of
/repo, builds and tests it, runs all checks of CHECKER (or those of $ONLY) on it and
prints those which raise an alarm. Not part of any check: a test of the checks."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

R = {}
def ref(name, *edits):
    assert name not in R, name
    R[name] = edits

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors_list.py")).read())

def env():
    e = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOSUMDB="off", GOPROXY="off", GOTOOLCHAIN="local")
    e["PATH"] = "/opt/veriftools/go1.26.10/bin:" + e["PATH"]
    return e

def one(ov, name):
    t = tempfile.mkdtemp(prefix="refac-")
    out = []
    try:
        d = t + "/repo"
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"), symlinks=True)
        for f, *subs in R[name]:
            p = os.path.join(d, f)
            s = open(p).read()
            for old, new in zip(subs[::2], subs[1::2]):
                if s.count(old) < 1:
                    return name, ["STALE: %s lacks %r" % (f, old[:60])]
                s = s.replace(old, new)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env(), capture_output=True, text=True, errors="replace")
        if b.returncode:
            return name, ["NOBUILD: " + b.stderr[:600]]
        b = subprocess.run(["go", "test", "./..."], cwd=d, env=env(), capture_output=True, text=True, errors="replace")
        if b.returncode:
            out.append("TESTS FAIL: " + "".join(l for l in b.stdout.splitlines(True) if "no test files" not in l and not l.startswith("ok"))[:600])
        v = t + "/v"
        os.makedirs(v + "/evidence")
        if os.path.exists("/verif/known-findings.txt"):
            shutil.copy("/verif/known-findings.txt", v)
        e = env(); e["OAPI_REPO"] = d; e["OAPI_VERIF"] = v
        ids = subprocess.run([ov, "list"], env=e, capture_output=True, text=True, errors="replace").stdout.split()
        if os.environ.get("ONLY"):
            ids = os.environ["ONLY"].split()
        for i in ids:
            try:
                r = subprocess.run([ov, "check", i], env=e, capture_output=True, text=True, errors="replace", timeout=600)
            except subprocess.TimeoutExpired:
                out.append(i + ": no answer in 600 s")
                continue
            if r.returncode:
                out.append(i + ": " + r.stdout[:900] + r.stderr[-600:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return name, out

if __name__ == "__main__":
    ov = sys.argv[1]
    names = sys.argv[2:] or list(R)
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for name, out in ex.map(lambda n: one(ov, n), names):
            if out:
                bad += 1
                print("=== " + name)
                for o in out:
                    print(o)
    print("%d of %d refactorings raise something" % (bad, len(names)))
    sys.exit(1 if bad else 0)
