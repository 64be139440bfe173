#!/usr/bin/env python3
"""Makes a planted bug:  seed.py ID PROP FILE  (reads a JSON spec from stdin)
spec: {edits:[[file,old,new]], demo: C++ text, src:[repo sources], needs, breaks}
Also: seed.py --try ID  builds, tests, runs the demo with and without and the property's check."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
clang++-18 -std=c++17 -O1 -w -include cstdint -I"$PWD" -I"$D/inc" "$D/demo.cc" %s -o "$W/demo" %s || exit 2
timeout 60 "$W/demo"
'''
# Most sources need a newer abseil than the installed one, and the output of protoc: the stand-ins are copied next to the demo.
LOGH = """#include <cstdlib>
#include <iostream>
#define LOG(x) std::ostream(nullptr)
#define VLOG(x) std::ostream(nullptr)
#define LOG_IF(x, c) std::ostream(nullptr)
#define DCHECK(c) std::ostream(nullptr)
#define CHECK(c) if (!(c)) abort(); else std::ostream(nullptr)
#define CHECK_OK(s) if (!(s).ok()) abort(); else std::ostream(nullptr)
"""
LIBS = "-labsl_status -labsl_statusor -labsl_strings -labsl_strings_internal -labsl_str_format_internal -labsl_cord -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash -labsl_int128 -labsl_throw_delegate -labsl_raw_logging_internal -labsl_base -labsl_synchronization"


def make(id, prop, spec):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip()
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(R, "mpact/sim", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % R).stdout)
    finally:
        sh("git -C %s checkout -- ." % R)
    open(os.path.join(d, "demo.cc"), "w").write(spec["demo"])
    src = " ".join("mpact/sim/" + s for s in spec.get("src", []))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (src, spec.get("libs", "" if spec.get("stub") else "-Wl,--start-group " + LIBS + " -Wl,--end-group -lpthread")))
    if spec.get("stub"):
        sh("rm -rf %s/inc; mkdir -p %s/inc; cp -r %s/shim/absl %s/shim/mpact %s/inc" % (d, d, V, V, d))
        open(d + "/inc/absl/log/log.h", "w").write("#pragma once\n" + LOGH)
        open(d + "/inc/absl/log/check.h", "w").write('#include "absl/log/log.h"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def trial(id, build=True):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    clean = sh("bash %s/demo.sh" % d, cwd=R)
    try:
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        t = sh("bash /opt/vp/test.sh /tmp/seed.json | tail -1").stdout.strip() if build else "not built"
        bad = sh("bash %s/demo.sh" % d, cwd=R)
        c = sh("VF_REPO=%s python3 %s/tools/check.py %s" % (R, V, prop))
    finally:
        sh("git -C %s checkout -- ." % R)
    viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = clean.returncode == 0 and bad.returncode != 0 and a.returncode == 0
    print("%-28s %s demo clean=%d patched=%d tests=[%s] check=%d %s%s" % (id, prop, clean.returncode, bad.returncode, t, c.returncode, "CAUGHT" if c.returncode == 1 and viol else "MISSED", "" if ok else "  ***INVALID***"))
    if not ok:
        print(clean.stdout[:1200], bad.stdout[-300:], a.stdout)
    if c.returncode != 1 or "-v" in sys.argv:
        print(c.stdout[-1500:])


if __name__ == "__main__":
    if sys.argv[1] == "--try":
        for i in sys.argv[2:]:
            if i[0] != "-":
                trial(i, "--nobuild" not in sys.argv)
        if "--nobuild" not in sys.argv: sh("bash /opt/vp/build.sh")
    else:
        make(sys.argv[1], sys.argv[2], json.load(sys.stdin))
