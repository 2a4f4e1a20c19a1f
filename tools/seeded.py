#!/usr/bin/env python3
"""seeded.py [-c] [ID...]: confirm the planted bugs in scratch copies of /repo (builds, passes the tests, the
demonstration passes without and fails with the patch); with -c run the check of their property against each."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
STABLE = None


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env={**os.environ, **(env or {})})


def tests(d):
    r = sh("CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBWSL_TEST=ON -DBWSL_APPLICATIONS=ON "
           "-DCMAKE_PROJECT_bwl_INCLUDE=/opt/vp/cmake/bwsl_system_deps.cmake && ninja -j3 -C _build", d)
    if r.returncode:
        return "build failed: " + (r.stdout + r.stderr)[-600:]
    r = sh("find include -name '*.hpp' -print0 | xargs -0 -P 3 -I{} g++ -std=gnu++17 -Iinclude -DFMT_HEADER_ONLY -w -fsyntax-only -x c++ {}", d)
    if r.returncode:
        return "headers: " + r.stderr[-600:]
    rep = d + "/_rep"
    os.makedirs(rep)
    sh("python3 /opt/vp/run_tests.py %s/_build %s" % (d, rep), d)
    r = sh("python3 /opt/vp/results.py %s/o.json 'junit:%s/*.xml' 'lines:%s/*.lines'" % (d, rep, rep), d)
    o = json.load(open(d + "/o.json"))
    if o["failed"] or len(o["passed"]) < 41:
        return "tests fail: %s (%d passed)" % (o["failed"], len(o["passed"]))


def one(i, check):
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
        # an own folder: the demonstration finds its files by its own path
        demo = d + "/_demo"
        shutil.copytree(os.path.join(S, i), demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        r = sh("cmake --version >/dev/null; bash %s/demo.sh" % demo, d) if "dumpmt" not in open(demo + "/demo.sh").read() else None
        if r and r.returncode:
            return i, "BAD demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-300:]
        r = sh("git apply --check %s/patch.diff 2>&1; patch -p1 -s < %s/patch.diff" % (os.path.join(S, i), os.path.join(S, i)), d)
        if r.returncode:
            return i, "BAD patch: " + r.stdout + r.stderr
        e = tests(d)
        if e:
            return i, "BAD " + e
        r = sh("bash %s/demo.sh" % demo, d)
        if r.returncode == 0:
            return i, "BAD demo passes with the patch"
        m = "good"
        if check:
            p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
            r = sh("python3 %s/run.py %s" % (V, p), V, {"BWSL_REPO": d, "VERIF_SEED": "1"})
            m = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode) + " " + (r.stdout + r.stderr).strip().splitlines()[-1][:150]
        return i, m
    finally:
        shutil.rmtree(d)


a = sys.argv[1:]
check = "-c" in a
ids = [x for x in a if x != "-c"] or sorted(os.listdir(S))
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(lambda i: one(i, check), ids):
        print(i, m, flush=True)
