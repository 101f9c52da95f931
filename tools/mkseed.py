"""Makes a planted bug from a replacement in a scratch copy of /repo: used as a library by throw-away scripts."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: /repo, after the build
D=$(dirname "$(realpath "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -O2 -w %s -Iinclude -Isrc "$D/demo.c" %s -lm -o "$T/demo" && "$T/demo"
'''


def mk(id, prop, edits, needs, breaks, demo_c=None, demo_sh=None, flags="", srcs="src/*.c", files=None):
    t = tempfile.mkdtemp(prefix="mk")
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in edits:
        p = os.path.join(t, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    assert d
    o = os.path.join(V, "seeded", id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    if demo_c:
        open(o + "/demo.c", "w").write(demo_c)
    open(o + "/demo.sh", "w").write(demo_sh or DEMO % (flags, srcs))
    os.chmod(o + "/demo.sh", 0o755)
    for n, c in (files or {}).items():
        open(os.path.join(o, n), "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
