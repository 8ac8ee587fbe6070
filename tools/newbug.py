"""newbug(id, prop, edits, demo_cc, needs, breaks): writes seeded/<id>/ (patch from edits on a clean /repo checkout)."""
import json, os, subprocess, difflib
DEMO = """#!/bin/bash
# exit 0: property holds; nonzero: violated.  Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "${T:?}"' EXIT
L=$PWD/_build/lib/lf
${CXX:-g++} -std=gnu++20 -O1 -w -DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DFMT_SHARED \\
  -DBOOST_ENABLE_ASSERT_DEBUG_HANDLER -DLF_REDIRECT_ASSERTS @EXTRA@ \\
  -I"$PWD/lib" -isystem /usr/include/eigen3 "$D/demo.cc" -o "$T/demo" -Wl,--start-group \\
  $(find "$L" -name '*.a' ! -path '*test_utils*' | sort) -Wl,--end-group -lspdlog -lfmt -lpthread -ldl -lbacktrace || exit 98
cd "$T" && timeout 120 ./demo
"""
def newbug(id, prop, edits, demo, needs, breaks, extra="", demo_sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, new in files.items():
        old = open("/repo/" + f).read()
        assert old != new
        out += "diff --git a/%s b/%s\n" % (f, f)
        for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f): out += l
    open(d + "/patch.diff", "w").write(out)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    if demo: open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO.replace("@EXTRA@", extra))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print(id, "written")
