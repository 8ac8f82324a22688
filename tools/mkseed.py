#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS < demo.cpp   (by hand: makes seeded/ID from a one-place change of /repo)"""
import sys, os, subprocess, json, shutil
def make(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            s = open("/repo/" + f).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open("/repo/" + f, "w").write(s.replace(old, new))
        p = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(p)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds in the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/printemps" "$here/demo.cpp" -o "$work/demo" || exit 3
cd "$work" && timeout 120 ./demo
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
