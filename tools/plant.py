#!/usr/bin/env python3
"""Makes planted bugs from a batch file and tries them out.

    plant.py make BATCH.py [id...]   makes /verif/seeded/<id> for the bugs in
                                     the batch that hold water
    plant.py run [id...]             runs the checks against planted bugs
                                     (in a scratch copy of /repo)
    plant.py run --check C02 [id...] runs another property's check

A batch file defines BUGS, a list of dictionaries with id, property, needs,
what_it_breaks, edits (file, old text, new text) and demo (C++ source), and
optionally demo_sh (replaces the standard script).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = os.environ.get("PLANT_DIR", "/tmp/plant")
COPY = os.path.join(SCRATCH, "repo")

DEMO_SH = r'''#!/bin/bash
# Exit code 0: the property holds in the demonstration.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++20 -O1 -g -w @FLAGS@-I include -I src -I _build "$here/demo.cpp" @LIB@ -pthread -o "$tmp/demo" || exit 2
cd "$tmp"
timeout 100 ./demo
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          shell=isinstance(cmd, str), **kw)


def prepare():
    if not os.path.isdir(os.path.join(COPY, "_build")):
        os.makedirs(SCRATCH, exist_ok=True)
        sh(["cp", "-a", "/repo", COPY])
        shutil.rmtree(os.path.join(COPY, "_build"))
        r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error "
               "-DCMAKE_MODULE_PATH=/opt/vp/cmake -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DARGOS_BUILD_TEST=ON "
               "-DARGOS_BUILD_EXAMPLES=OFF -DARGOS_UPDATE_SINGLE_SRC=OFF", cwd=COPY)
        if r.returncode:
            sys.exit(r.stdout.decode())
    restore()
    sh(["git", "fetch", "-q", "/repo", "HEAD"], cwd=COPY)
    sh(["git", "checkout", "-q", "FETCH_HEAD"], cwd=COPY)


def restore():
    sh(["git", "checkout", "-q", "--", "."], cwd=COPY)


def build():
    r = sh("ninja -C _build -j8", cwd=COPY)
    return r.returncode == 0, r.stdout.decode(errors="replace")[-3000:]


def tests():
    r = sh(["_build/tests/ArgosTest/ArgosTest"], cwd=COPY)
    return r.returncode == 0, r.stdout.decode(errors="replace")[-2500:]


def demo(d):
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=COPY)
    return r.returncode, r.stdout.decode(errors="replace")[-1500:]


def make(batch, ids):
    ns = {}
    exec(compile(open(batch).read(), batch, "exec"), ns)
    prepare()
    ok, out = build()
    assert ok, out
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = os.path.join(SCRATCH, "new", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        restore()
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(COPY, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, t.count(old), old)
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(b["id"], "BAD EDIT", bad)
            continue
        open(os.path.join(d, "patch.diff"), "wb").write(sh(["git", "diff"], cwd=COPY).stdout)
        if b.get("demo"):
            open(os.path.join(d, "demo.cpp"), "w").write(b["demo"])
        san = b.get("sanitize")
        script = b.get("demo_sh") or DEMO_SH.replace(
            "@FLAGS@", "-fsanitize=%s -fno-sanitize-recover=all " % san if san else "").replace(
            "@LIB@", "src/Argos/*.cpp" if san else "_build/libArgos.a")
        open(os.path.join(d, "demo.sh"), "w").write(script)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok, out = build()
        if not ok:
            print(b["id"], "DOES NOT BUILD", out)
            continue
        t_ok, t_out = tests()
        rc1, out1 = demo(d)
        restore()
        build()
        rc0, out0 = demo(d)
        if not t_ok or rc1 == 0 or rc0 != 0 or rc1 == 2:
            print(b["id"], "REJECTED tests pass: %s demo with patch: %d without: %d" % (t_ok, rc1, rc0))
            if not t_ok:
                print(t_out)
            if rc0:
                print(out0)
            print(out1)
            continue
        dest = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        print(b["id"], "kept")
        sys.stdout.flush()


def run(ids, other=None):
    prepare()
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        prop = other or json.load(open(os.path.join(d, "meta.json")))["property"]
        restore()
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=COPY)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout.decode())
            continue
        t = time.time()
        env = dict(os.environ, VERIF_REPO=COPY)
        r = sh(["python3", os.path.join(VERIF, "check.py"), prop, "--seed", os.environ.get("VERIF_SEED", "1")], env=env)
        out = r.stdout.decode(errors="replace")
        m = re.search(r"^VIOLATION property=%s .*\n(.*)" % prop, out, re.M)
        print("%-28s %s %s %5.1f s  %s" % (i, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode),
                                          time.time() - t, m.group(1).strip()[:150] if m else out[-300:].strip()))
        sys.stdout.flush()
    restore()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        a = sys.argv[2:]
        other = None
        if a[:1] == ["--check"]:
            other, a = a[1], a[2:]
        run(a, other)
