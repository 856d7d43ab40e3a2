#!/usr/bin/env python3
"""mkseed.py: (development) writes seeded/<id>/ from a description file
   mk(id, property, file, old, new, needs, breaks, demo_cc)"""
import os, subprocess, tempfile, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#include "flpr/flpr.hh"
#include "flpr/parse_stmt.hh"
#include "flpr/Prgm_Parsers.hh"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace FLPR;
typedef std::vector<std::string> Lines;
[[maybe_unused]] static std::string printed(Logical_File const &f) { std::ostringstream o; for (auto const &l : f.lines) o << l; return o.str(); }
[[maybe_unused]] static int expect(bool ok, std::string const &what) { if (!ok) { std::cout << "FAILED: " << what << std::endl; return 1; } return 0; }
'''
SH = '''#!/bin/bash
# exit 0: behaves; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -g -O0 -Isrc "$D/demo.cc" %s _build/src/flpr/libflpr.a -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
'''
def mk(id, prop, edits, needs, breaks, demo, extra=""):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in edits:
            p = t + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        df = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(df)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(SH % extra)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write(PRE + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
