#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (planted bugs) from the list in seeds_list.py and validates each:
the patch applies and changes original lines, the build and the stable tests pass with it, and its
demonstration succeeds without it and fails with it. Everything happens in scratch copies.

  seeds.py write [ID...]      write the folders
  seeds.py demos [ID...]      only try their demonstrations, in scratch copies
  seeds.py validate [ID...]   validate them (needs /opt/vp)
"""
import json, os, shutil, subprocess, sys, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "02650db"
SEEDED = os.path.join(V, "seeded")
exec(open(os.path.join(V, "tools/seeds_list.py")).read())

HEADER_SH = """#!/bin/bash
# Exit 0 if the property holds in this demonstration, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 3
"""
CPP_SH = HEADER_SH + """g++ -std=c++17 -O1 -g0 -w -DNDEBUG -DDOCTEST_CONFIG_DISABLE -I"$repo/include" -I"$repo/src" -I"$here/val" -I/usr/include/eigen3 \\
  "$here/demo.cc" %s -o demo -pthread || exit 4
timeout 120 ./demo
"""
FULL_SH = HEADER_SH + """flags="-std=c++17 -O1 -g0 -w -DNDEBUG -DDOCTEST_CONFIG_DISABLE -I$repo/include -I$repo/src -I$here/val -I/usr/include/eigen3"
pids=
for f in $(find "$repo/src" -name '*.cc' -not -path '*/python/*') "$here/val/valstub.cc" "$here/demo.cc"; do
  g++ $flags -c "$f" -o "$(echo "$f" | tr / _).o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 4; done
g++ *.o -o demo -pthread || exit 4
timeout 120 ./demo
"""
APP_SH = HEADER_SH + """flags="-std=c++17 -O1 -g0 -w -DNDEBUG -DDOCTEST_CONFIG_DISABLE -I$repo/include -I$repo/src -I$here/val -I/usr/include/eigen3"
pids=
for f in $(find "$repo/src" -name '*.cc' -not -path '*/python/*') "$here/val/valstub.cc" "$repo/apps/pddl.cc"; do
  g++ $flags -c "$f" -o "$(echo "$f" | tr / _).o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 4; done
g++ *.o -o demo -pthread || exit 4
timeout 120 ./demo "$here/domain.pddl" "$here/problem.pddl" %s > output 2> errors
cat output
grep -q "%s" output
"""
EXT_SH = HEADER_SH + """flags="-std=c++17 -O1 -g0 -w -fsanitize=address -DNDEBUG -DDOCTEST_CONFIG_DISABLE -I$repo/include -I$repo/src -I$here/val -I$here/py -I/usr/include/eigen3"
pids=
for f in $(find "$repo/src" -name '*.cc') "$here/val/valstub.cc" "$here/demo.cc"; do
  g++ $flags -c "$f" -o "$(echo "$f" | tr / _).o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 4; done
g++ -fsanitize=address *.o -o demo -pthread || exit 4
ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
"""
PY_SH = HEADER_SH + """PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$here/demo.py" "$repo/symbolic/problem.py"
"""
DEMO_H = r'''// Shared by demonstrations: loads a problem from texts, counts failed checks.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "symbolic/pddl.h"
inline int g_bad = 0;
#define CHECK(x) do { if (!(x)) { std::printf("failed, line %d: %s\n", __LINE__, #x); g_bad++; } } while (0)
inline std::unique_ptr<symbolic::Pddl> Load(const std::string& domain, const std::string& problem) {
  { std::ofstream f("domain.pddl"); f << domain; }
  return std::make_unique<symbolic::Pddl>("domain.pddl", problem);
}
inline std::set<std::string> Facts(const symbolic::State& s) { return symbolic::Stringify(s); }
'''

EXT_H = r'''// Shared by demonstrations of the Python bindings: the module in a small interpreter.
#pragma once
#include "demo.h"
#include "pybind11/pybind11.h"
extern "C" void sim_py_load_module(pybind11::module_& m);
using simpy::Ref;
using simpy::Str;
using simpy::Int;
using simpy::Bool;
using simpy::Construct;
using simpy::CallMethod;
using simpy::CallStatic;
using simpy::GetAttr;
using simpy::SetAttr;
inline void StartPython() { static pybind11::module_ m; sim_py_load_module(m); }
inline Ref Set(const std::set<std::string>& s) { return simpy::Strs(simpy::kSet, s); }
inline Ref StrList(const std::vector<std::string>& s) { return simpy::Strs(simpy::kList, s); }
inline Ref PyPddl(const std::string& domain, const std::string& problem) {
  { std::ofstream f("domain.pddl"); f << domain; }
  return Construct("Pddl", {Str("domain.pddl"), Str(problem)});
}
inline std::set<std::string> Strings(const Ref& r) {
  std::set<std::string> s;
  for (const Ref& x : r->items) s.insert(x->s);
  return s;
}
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def base_text(path):
    r = sh("git show %s:%s" % (BASE, path), cwd=REPO)
    return r.stdout if r.returncode == 0 else ""

def make_patch(bug):
    out = []
    touched = False
    by_file = {}
    for path, old, new in bug["edits"]:
        text = by_file.get(path) or open(os.path.join(REPO, path)).read()
        assert text.count(old) >= 1, (bug["id"], path, old)
        n = bug.get("count", 1)
        assert text.count(old) == n, (bug["id"], "occurs", text.count(old), old)
        by_file[path] = text.replace(old, new)
    for path, new in by_file.items():
        a = open(os.path.join(REPO, path)).read().splitlines(True)
        b = new.splitlines(True)
        base = set(base_text(path).splitlines(True))
        for line in difflib.ndiff(a, b):
            if line.startswith("- ") and line[2:] in base and line[2:].strip():
                touched = True
        d = list(difflib.unified_diff(a, b, "a/" + path, "b/" + path))
        out.append("diff --git a/%s b/%s\n" % (path, path))
        for l in d:
            out.append(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n")
    assert touched, (bug["id"], "changes no original line")
    return "".join(out)

def write(bug):
    d = os.path.join(SEEDED, bug["id"])
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(make_patch(bug))
    kind = bug["kind"]
    if kind == "py":
        open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        script = PY_SH
    elif kind == "app":
        import re
        domain, problem, args, expect = re.split(r";;; (?:problem|args|expect) ?", bug["demo"])
        open(os.path.join(d, "domain.pddl"), "w").write(domain.lstrip("\n"))
        open(os.path.join(d, "problem.pddl"), "w").write(problem.lstrip("\n"))
        os.makedirs(os.path.join(d, "val"))
        shutil.copytree(os.path.join(V, "sim/valstub/VAL"), os.path.join(d, "val/VAL"))
        shutil.copy(os.path.join(V, "sim/valstub/valstub.cc"), os.path.join(d, "val"))
        script = APP_SH % (args.strip(), expect.strip())
    else:
        open(os.path.join(d, "demo.cc"), "w").write(bug["demo"].lstrip("\n"))
        if kind in ("full", "ext"):
            os.makedirs(os.path.join(d, "val"))
            shutil.copytree(os.path.join(V, "sim/valstub/VAL"), os.path.join(d, "val/VAL"))
            shutil.copy(os.path.join(V, "sim/valstub/valstub.cc"), os.path.join(d, "val"))
            open(os.path.join(d, "demo.h"), "w").write(DEMO_H)
            script = FULL_SH
            if kind == "ext":
                open(os.path.join(d, "pydemo.h"), "w").write(EXT_H)
                shutil.copytree(os.path.join(V, "sim/pystub"), os.path.join(d, "py"))
                os.makedirs(os.path.join(d, "py/engine"))
                open(os.path.join(d, "py/engine/sim.h"), "w").write("#pragma once\nnamespace sim { struct Outside { ~Outside() {} }; }\n")
                script = EXT_SH
        else:
            script = CPP_SH % ""
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(script)
    os.chmod(p, 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

def validate(bug):
    d = os.path.join(SEEDED, bug["id"])
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        sh("cp -a /repo %s/repo" % t)
        w = t + "/repo"
        clean = sh("bash %s/demo.sh" % d, cwd=w)
        if clean.returncode != 0:
            return "demo fails on the unchanged tree (%d): %s" % (clean.returncode, clean.stdout[-800:])
        r = sh("git apply %s/patch.diff" % d, cwd=w)
        if r.returncode:
            return "does not apply: " + r.stdout
        bad = sh("bash %s/demo.sh" % d, cwd=w)
        if bad.returncode == 0:
            return "demo succeeds with the change"
        if bad.returncode == 4:
            return "the change does not compile: " + bad.stdout[-800:]
        return "ok (demo: %d, %s)" % (bad.returncode, bad.stdout.strip().splitlines()[-1][:100] if bad.stdout.strip() else "")
    finally:
        shutil.rmtree(t)

def tests(bug):
    """Applies the patch to /repo itself for as long as build and tests take (they only work there)."""
    if sh("git status --porcelain", cwd=REPO).stdout.strip():
        return "/repo is not clean"
    d = os.path.join(SEEDED, bug["id"])
    try:
        r = sh("git apply %s/patch.diff" % d, cwd=REPO)
        if r.returncode: return "does not apply"
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_tests.json")
        return "tests pass" if r.returncode == 0 and " 0 failed" in r.stdout else "BUILD OR TESTS FAIL: " + r.stdout[-600:]
    finally:
        sh("git checkout -- .", cwd=REPO)

ids = sys.argv[2:]
todo = [b for b in BUGS if not ids or b["id"] in ids]
for b in todo:
    if sys.argv[1] == "write":
        try:
            write(b)
        except AssertionError as e:
            print("cannot write", e)
if sys.argv[1] == "write":
    print("wrote", len(todo))
if sys.argv[1] in ("validate", "demos"):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for b, r in zip(todo, ex.map(validate, todo)):
            print(b["id"], r, flush=True)
if sys.argv[1] == "validate":
    for b in todo:
        print(b["id"], tests(b), flush=True)
    sh("bash /opt/vp/build.sh")
