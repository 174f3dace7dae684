#!/usr/bin/env python3
"""Makes a directory under seeded/ from a definition: seed(id, prop, edits,
demo, needs, breaks). edits: list of (file, old, new). The demonstration is a
C++ program linked against /repo's build products."""
import json
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SH = r'''#!/bin/bash
# run with cwd = the repository, after its build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
g++ -std=c++20 -O1 -w -pthread @DEFS@ -I. -I"$here" "$here/demo.cpp" @SRCS@ \
    -o "$work/demo" _build/libjust.a -lfmt -lgit2 -larchive -lcurl -lcrypto \
    -lssl @LIBS@ || exit 3
cd "$work" && mkdir scratch && cd scratch
TMPDIR="$work" timeout -k 5 @TMO@ "$work/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: property holds" || echo "demo: broken (rc=$rc)"
exit $rc
'''


def seed(sid, prop, edits, demo, needs, breaks, srcs=(), defs="", libs="",
         timeout=120, extra=None, sh=None):
    d = f"{VERIF}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    patch = ""
    by = {}
    for f, old, new in edits:
        s = by.get(f) or open(f"/repo/{f}").read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        by[f] = s.replace(old, new)
    for f, s in by.items():
        with tempfile.NamedTemporaryFile("w", delete=False) as t:
            t.write(s)
        r = subprocess.run(["diff", "-u", f"/repo/{f}", t.name], text=True,
                           stdout=subprocess.PIPE)
        os.unlink(t.name)
        body = r.stdout.split("\n", 2)[2]
        patch += f"diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n" + body
    open(d + "/patch.diff", "w").write(patch)
    subprocess.run(["git", "-C", "/repo", "apply", "--check",
                    d + "/patch.diff"], check=True)
    s = sh or SH
    s = (s.replace("@SRCS@", " ".join(srcs)).replace("@DEFS@", defs)
         .replace("@LIBS@", libs).replace("@TMO@", str(timeout)))
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    if demo:
        open(d + "/demo.cpp", "w").write(demo)
    for n, t in (extra or {}).items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
