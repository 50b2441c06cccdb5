#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from seed definition files: python3 tools/mkseeds.py FILE.py...
A definition: S(id, property, path, [(old, new), ...] or several (path, old, new), demo main body, needs, what)"""
import sys, os, subprocess, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -r -- "$T"' EXIT
I="-I include -I include/math -I include/blas -I include/math/statistics -I include/math/statistics/inference -I include/math/statistics/inference/models"
g++ -std=c++17 -O1 -w -DUSE_BOOST $I "$D/demo.cpp" -o "$T/demo" "$PWD/_build/cpp/libldt.so" -Wl,-rpath,"$PWD/_build/cpp" -l:libblas.so -l:liblapack.so -lpthread || exit 3
timeout 60 "$T/demo"
'''
ORIG = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True, capture_output=True).stdout.split()[0]
HEAD = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
%s
using namespace ldt;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %%d: %%s\\n", __LINE__, #c); fails++; } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) < 1e-6 * (1 + std::fabs(b)); }
'''
def S(id, prop, edits, body, needs, what, inc='"matrix.h"', pre=""):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for path, old, new in edits:
        p = os.path.join("/repo", path)
        cur = files.get(path) or open(p).read()
        assert cur.count(old) == 1, (id, path, cur.count(old), old)
        files[path] = cur.replace(old, new)
    for path, s in files.items():
        orig = subprocess.run(["git", "-C", "/repo", "show", ORIG + ":" + path], text=True, capture_output=True).stdout.splitlines()
        r = subprocess.run(["diff", "-u", "--label", "a/" + path, "--label", "b/" + path, os.path.join("/repo", path), "-"], input=s, text=True, capture_output=True)
        diff += r.stdout
        if any(l[0] == "-" and not l.startswith("---") and l[1:] not in orig for l in r.stdout.splitlines()):
            print(id, "changes lines that are not original")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    incs = "\n".join("#include " + i for i in inc.split())
    open(os.path.join(d, "demo.cpp"), "w").write(HEAD % incs + pre + "\nint main() {\n" + body.strip("\n") + "\n  return fails != 0;\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, "exec"), {"S": S})
