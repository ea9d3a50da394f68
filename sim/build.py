#!/usr/bin/env python3
"""Builds one simulator executable (repo sources from /repo's working tree + engine + one workload).

Objects are cached by content under build/ (ignored by git); a fresh copy builds everything.
"""
import concurrent.futures
import glob
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMSIM_REPO", "/repo")
BUILD = os.environ.get("SYMSIM_BUILD", os.path.join(VERIF, "build"))

CXX = "clang++"
COMMON = [
    "-std=c++17", "-DNDEBUG", "-DDOCTEST_CONFIG_DISABLE", "-w", "-fno-omit-frame-pointer",
    "-gline-tables-only", "-pthread",
]
INC = [
    "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
    "-I" + os.path.join(VERIF, "sim/valstub"), "-I" + os.path.join(VERIF, "sim"),
    "-I" + os.path.join(VERIF, "sim/pystub"),
    "-I/usr/include/eigen3",
]
SAN = ["-fsanitize=address", "-fno-sanitize-address-use-after-scope"]
COV = ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"]
INSTR = ["-O1"] + SAN + COV
PLAIN = ["-O1"] + SAN
ENGINE = ["-O2"] + SAN


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def headers(*roots):
    out = []
    for r in roots:
        for d, _, files in sorted(os.walk(r)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inc")) or "/VAL" in d:
                    p = os.path.join(d, f)
                    out.append(p + ":" + digest(read(p)))
    return "\n".join(out)


PCH_TEXT = """#include <Eigen/Eigen>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <doctest/doctest.h>
"""


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:])


def parts_of(src):
    """A workload may be compiled in several parts (in parallel): '// SIM_PARTS n' on its first line."""
    with open(src) as f:
        line = f.readline()
    return int(line.split()[2]) if line.startswith("// SIM_PARTS") else 0


def program_of(src):
    """A workload may run one of the repository's programs: '// SIM_PROGRAM path' on its first line."""
    with open(src) as f:
        line = f.readline()
    return os.path.join(REPO, line.split()[2]) if line.startswith("// SIM_PROGRAM") else None


def compile_program(src, flags, deps, pch):
    """The program's object with its main renamed, so that the simulator can call it."""
    obj = compile_one(src, flags, deps, pch)
    out = obj[:-2] + ".renamed.o"
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["objcopy", "--redefine-sym", "main=sim_program_main", obj, tmp])
        os.rename(tmp, out)
    return out


def compile_one(src, flags, deps, pch=None):
    key = digest(CXX, " ".join(COMMON + INC + flags), deps, read(src), src)
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run([CXX] + COMMON + flags + (["-include-pch", pch] if pch else []) + INC + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def build_pch(flags):
    hdr = os.path.join(BUILD, "symsim_pch.h")
    key = digest(CXX, " ".join(COMMON + flags), PCH_TEXT)
    pch = os.path.join(BUILD, "pch." + key + ".pch")
    if not os.path.exists(pch):
        with open(hdr, "w") as f:
            f.write(PCH_TEXT)
        tmp = pch + ".%d.tmp" % os.getpid()
        run([CXX] + COMMON + flags + ["-I/usr/include/eigen3", "-x", "c++-header", hdr, "-o", tmp])
        os.rename(tmp, pch)
    return pch


def repo_sources():
    srcs = sorted(glob.glob(os.path.join(REPO, "src/**/*.cc"), recursive=True))
    return [s for s in srcs if "/python/" not in s]


def build(workloads, jobs=None):
    """workloads: list of .cc files under sim/work. Returns (exe, seconds)."""
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs = jobs or os.cpu_count() or 4
    repo_h = headers(os.path.join(REPO, "include"), os.path.join(REPO, "src"))
    stub_h = headers(os.path.join(VERIF, "sim/valstub"))
    python_h = headers(os.path.join(VERIF, "sim/pystub"))
    sim_h = headers(os.path.join(VERIF, "sim/engine"), os.path.join(VERIF, "sim/model"),
                    os.path.join(VERIF, "sim/work"))
    engine = sorted(glob.glob(os.path.join(VERIF, "sim/engine/*.cc")))
    model = sorted(glob.glob(os.path.join(VERIF, "sim/model/*.cc")))
    objs = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        # The engine does not need the precompiled header: start with it.
        fut = {}
        for s in engine:
            fut[s] = ex.submit(compile_one, s, ENGINE, sim_h)
        pch_f = ex.submit(build_pch, INSTR)
        for s in model:
            fut[s] = ex.submit(compile_one, s, PLAIN, sim_h)
        pch = pch_f.result()
        rest = []
        for w in workloads:
            n = parts_of(w)
            for i in range(max(1, n)):
                rest.append((w, repo_h + stub_h + python_h + sim_h, ["-DSIM_PART=%d" % i] if n else []))
        rest += [(s, repo_h + stub_h, []) for s in repo_sources()]
        rest += [(os.path.join(VERIF, "sim/valstub/valstub.cc"), stub_h, [])]
        for s, deps, extra in rest:
            fut[s + "".join(extra)] = ex.submit(compile_one, s, INSTR + extra, deps, pch)
        for w in workloads:
            s = program_of(w)
            if s:
                fut[s] = ex.submit(compile_program, s, INSTR, repo_h + stub_h + python_h, pch)
        for s, f in fut.items():
            objs[s] = f.result()
    order = [objs[s] for s in sorted(objs)]
    key = digest("\n".join(order))
    exe = os.path.join(BUILD, "symsim." + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        run([CXX] + SAN + ["-pthread", "-o", tmp] + order + ["-ldl"])
        os.rename(tmp, exe)
    return exe, time.time() - t0


def prune(limit=3 << 30):
    """Keeps the cache bounded."""
    files = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if total <= limit:
            break
        if time.time() - _ < 3600:
            continue
        os.unlink(p)
        total -= size


if __name__ == "__main__":
    if sys.argv[1:] == ["--warm"]:
        # setup: check that everything needed is there; each check builds from the tree it is given.
        for tool in (CXX, "python3", "objcopy"):
            subprocess.check_call(["which", tool], stdout=subprocess.DEVNULL)
        sys.exit(0)
    ws = [os.path.join(VERIF, "sim/work", a + ".cc") for a in sys.argv[1:]]
    exe, secs = build(ws)
    print(exe, "%.1f s" % secs)
