#!/usr/bin/env python3
"""seed.py make SPEC.py [ID...]   write seeded/<id>/ from a spec (list SEEDS of dicts)
   seed.py test [ID...] [--nocheck]  validate planted bugs in a scratch copy and run the property's check
Spec entries: id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ body of main, or full source)."""
import glob, json, os, runpy, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = "/tmp/seedws"
R = WS + "/repo"
DEMO = """#!/bin/bash
# Compiles demo.cpp against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
g++ -std=c++17 -O1 FLAGS -I"$PWD/include" -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$t/demo" -lgmpxx -lgmp || exit 3
"$t/demo"
"""
HEAD = """#include <libcommute/libcommute.hpp>
#include <cmath>
#include <complex>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <vector>
using namespace libcommute;
#define REQUIRE(...) do { if(!(__VA_ARGS__)) { std::cerr << "failed: " #__VA_ARGS__ "\\n"; return 1; } } while(0)
int main() {
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def ws():
    if not os.path.isdir(R):
        os.makedirs(WS, exist_ok=True)
        sh("git", "clone", "-q", "/repo", R)
    sh("git", "-C", R, "checkout", "-q", "--", ".")
    sh("git", "-C", R, "pull", "-q", "--ff-only")
    if not os.path.exists(WS + "/b/build.ninja"):
        r = sh("cmake", "-S", R, "-B", WS + "/b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_COMPILER=g++",
               "-DTESTS=ON", "-DEXAMPLES=ON", "-DDOCUMENTATION=OFF", "-DSTATIC_ANALYSIS=OFF", "-DUSE_BOOST=ON",
               "-DUSE_GMPXX=ON", "-DUSE_EIGEN3=ON")
        assert r.returncode == 0, r.stderr


def make(spec, ids):
    ws()
    for s in runpy.run_path(spec)["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        sh("git", "-C", R, "checkout", "-q", "--", ".")
        for f, old, new in s["edits"]:
            p = os.path.join(R, "include/libcommute", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
        demo = s["demo"]
        if "int main" not in demo:
            demo = HEAD.replace("#include <cmath>", s.get("inc", "") + "#include <cmath>") + demo + "\n  return 0;\n}\n"
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO.replace("FLAGS", s.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
    sh("git", "-C", R, "checkout", "-q", "--", ".")


def test(ids, check, only_check):
    ws()
    for i in ids:
        d = os.path.join(V, "seeded", i)
        m = json.load(open(d + "/meta.json"))
        sh("git", "-C", R, "checkout", "-q", "--", ".")
        out = [i]
        if not only_check:
            r = sh(d + "/demo.sh", cwd=R)
            out.append("demo-clean " + ("ok" if r.returncode == 0 else "BAD " + r.stdout + r.stderr[:800]))
        r = sh("git", "-C", R, "apply", d + "/patch.diff")
        if r.returncode:
            out.append("APPLY " + r.stderr)
        if not only_check:
            r = sh(d + "/demo.sh", cwd=R)
            out.append("demo-patched " + ("fails, ok" if r.returncode not in (0, 3) else f"BAD rc={r.returncode} " + r.stderr[:300]))
            r = sh("ninja", "-C", WS + "/b")
            if r.returncode:
                out.append("BUILD " + r.stdout[-600:])
            else:
                r = sh("ctest", "--test-dir", WS + "/b", "-j8")
                out.append("tests pass" if r.returncode == 0 else "TESTS-FAIL " + " ".join(
                    l for l in r.stdout.splitlines() if "Failed" in l))
        if check:
            r = sh("python3", V + "/run_check.py", m["property"], "quick", env=dict(os.environ, PBT_REPO=R, VERIF_SEED="1"))
            out.append(f"check {m['property']}: " + {0: "MISSED", 1: "caught"}.get(r.returncode, "?? " + r.stdout[-500:]))
        print(" | ".join(out), flush=True)
    sh("git", "-C", R, "checkout", "-q", "--", ".")


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    if sys.argv[1] == "make":
        make(a[0], a[1:])
    else:
        test(a or sorted(os.listdir(V + "/seeded")), "--nocheck" not in sys.argv, "--onlycheck" in sys.argv)
