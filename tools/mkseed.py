"""seed(id, prop, edits, needs, breaks, demo): write and verify /verif/seeded/<id> (scratch copy in /tmp/sw)."""
import os, subprocess, json, shutil
V = "/verif"
SW = "/tmp/sw"
SCL = "moving_mesh_transport/solver_classes/"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def scratch():
    if os.path.exists(SW):
        shutil.rmtree("/tmp/sw")
    subprocess.check_call(["cp", "-a", "/repo", SW])


def seed(id, prop, edits, needs, breaks, demo, timeout=300):
    if not os.path.exists(SW):
        scratch()
    head = sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip()
    if sh("git", "-C", SW, "rev-parse", "HEAD").stdout.strip() != head:
        scratch()
    sh("git", "-C", SW, "checkout", "--", ".")
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join(SW, f)
        b = open(p, newline="").read()
        crlf = "\r\n" in b
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = b.count(old)
        assert n == 1, "%s: %d matches of %r in %s" % (id, n, old, f)
        open(p, "w", newline="").write(b.replace(old, new))
    diff = subprocess.run(["git", "-C", SW, "diff"], capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    # only original lines may be changed
    for f, old, new in edits:
        base = subprocess.run(["git", "-C", SW, "show", "827ab45:" + f], capture_output=True).stdout.decode()
        for l in diff.decode().splitlines():
            if l.startswith("-") and not l.startswith("---"):
                assert l[1:].rstrip("\r") in base, "not original: " + l
    for f in ("plain.py", "wiring.py"):
        shutil.copy(os.path.join(V, "tools", f), d)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    bad = sh("timeout", str(timeout), "bash", d + "/demo.sh", cwd=SW)
    env = dict(os.environ, SA_REPO=SW)
    chk = sh("python3-vt", "/verif/check.py", prop, env=env)
    sh("git", "-C", SW, "checkout", "--", ".")
    good = sh("timeout", str(timeout), "bash", d + "/demo.sh", cwd=SW)
    print(id, prop, "clean rc", good.returncode, "patched rc", bad.returncode, "| check rc", chk.returncode, chk.stdout.strip().splitlines()[-2:] if chk.returncode != 1 else "")
    if good.returncode:
        print(good.stdout[-1500:], good.stderr[-2500:])
    if not bad.returncode or "AssertionError" not in bad.stderr:
        print("PATCHED:", bad.stdout[-1500:], bad.stderr[-2500:])


SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONPATH="$D:$PYTHONPATH"
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
import plain
import numpy as np
import math
from fractions import Fraction as Fr
'''
