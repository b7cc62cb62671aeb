"""Writes seeded/<id>/ from a description and tries it on a scratch copy of /repo.

A description is a python file with BUGS = [dict(id, property, edits=[(file, old, new)],
needs, what, demo (C++ text) [, files={name: text}, srcs=[repo sources], script])]."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the property holds on the tree in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
g++-12 -std=gnu++23 -fcoroutines -DSTD -O1 -w %s -Iinclude "$here/demo.cpp" %s -o "$work/demo" -lfmt -ldate-tz -lpthread || exit 3
cd "$work" && timeout 60 ./demo
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    wt = "/tmp/bugtree"
    shutil.rmtree(wt, ignore_errors=True)
    sh("git", "clone", "-q", "/repo", wt)
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + "/demo.sh", "w") as f:
            f.write(b.get("script") or DEMO % (b.get("flags", ""), " ".join(b.get("srcs", []))))
        os.chmod(d + "/demo.sh", 0o755)
        if "demo" in b:
            with open(d + "/demo.cpp", "w") as f:
                f.write(b["demo"])
        for n, t in b.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        for n in b.get("copy", []):  # (name beside the demo, path under /verif)
            shutil.copytree(os.path.join(ROOT, n[1]), os.path.join(d, n[0]))
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, f, indent=1)
        clean = sh("bash", d + "/demo.sh", cwd=wt)
        for file, old, new in b["edits"]:
            p = os.path.join(wt, file)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times:", old)
            open(p, "w").write(s.replace(old, new, 1))
        diff = sh("git", "diff", cwd=wt).stdout
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        broken = sh("bash", d + "/demo.sh", cwd=wt)
        ok = clean.returncode == 0 and broken.returncode not in (0, 3) and diff
        print(b["id"], "ok" if ok else "NOT OK", "clean", clean.returncode, "broken", broken.returncode)
        if not ok:
            print((clean.stdout + clean.stderr)[-1500:], "\n--\n", (broken.stdout + broken.stderr)[-1500:])
        sh("git", "checkout", "-q", "--", ".", cwd=wt)
    shutil.rmtree(wt, ignore_errors=True)


main()
