#!/usr/bin/env python3
"""Helper used while planting bugs: seed(id, property, file, [(old, new)], needs, what, demo_cpp) writes /verif/seeded/<id>/.
The patch is made in a throwaway clone of /repo; nothing here is used by the checks."""
import json, os, subprocess, sys, tempfile, shutil

DEMO_SH = '''#!/bin/bash
# run from the root of the repository; exit 0: behaves as it should
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d /tmp/demo-XXXXXX)"
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -w -Iinclude %s"$here/demo.cpp" -o "$out/demo" || exit 0
timeout 120 "$out/demo"
'''

def seed(id, prop, edits, needs, what, demo, extra_flags="", extra_files={}):
    d = "/verif/seeded/" + id
    wt = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", wt + "/r"])
        for f, old, new in edits:
            p = wt + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt + "/r", "diff"], text=True)
        assert diff
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(demo)
        for n, t in extra_files.items():
            open(d + "/" + n, "w").write(t)
        open(d + "/demo.sh", "w").write(DEMO_SH % extra_flags)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
        good = subprocess.call(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.DEVNULL)
        bad = subprocess.call(["bash", d + "/demo.sh"], cwd=wt + "/r", stdout=subprocess.DEVNULL)
        print(id, "demo on unchanged:", good, "on changed:", bad, "OK" if good == 0 and bad != 0 else "PROBLEM")
    finally:
        shutil.rmtree(wt)
