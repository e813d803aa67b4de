#!/usr/bin/env python3
"""mkseed.py: create seeded/<id> from a python description (development aid)."""
import json, os, subprocess, sys, difflib

def seed(id, prop, file, subs, demo, needs, breaks, srcs="", flags="", cmd=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    files = {file: subs} if file else subs
    patch = ""
    for f, ss in files.items():
        old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout
        new = old
        for a, b in ss:
            assert new.count(a) == 1, (id, f, new.count(a), a)
            new = new.replace(a, b)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository.  exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -I "$PWD/include" %s "$here/demo.cpp" %s -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
''' % (flags, " ".join('"$PWD/%s"' % s for s in srcs.split())))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("seed", id)
