#!/usr/bin/env python3
"""Mutation sweep: which small changes do the checks miss? Works on copies only.

  mutate.py OUT.jsonl [--files a,b] [--per-file N] [--workers N] [--secs S] [--seed S]
Each line of OUT.jsonl: file, line, kind, old, new, result (killed by / survived / does not compile).
"""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "include/symbolic/utils/hash_set.h": "C05 C06 C02 C01",
    "include/symbolic/utils/unique_vector.h": "C05 C16",
    "include/symbolic/utils/combination_generator.h": "C07 C08 C02",
    "include/symbolic/utils/parameter_generator.h": "C07 C14 C02",
    "src/utils/parameter_generator.cc": "C07 C14 C13 C12",
    "include/symbolic/state.h": "C06 C05 C08 C17 C14",
    "src/state.cc": "C08 C06 C17 C01 C05",
    "include/symbolic/proposition.h": "C17 C05 C01",
    "src/proposition.cc": "C17 C05 C01 C12",
    "include/symbolic/object.h": "C17 C12 C13 C01",
    "src/object.cc": "C17 C12 C13 C01 C11",
    "src/predicate.cc": "C14 C17 C08 C01",
    "include/symbolic/predicate.h": "C14 C17 C08",
    "include/symbolic/formula.h": "C01 C14 C12",
    "src/formula.cc": "C01 C14 C16 C12",
    "include/symbolic/action.h": "C01 C17 C14 C12",
    "src/action.cc": "C01 C09 C12 C17 C14",
    "include/symbolic/axiom.h": "C09 C01 C14",
    "src/axiom.cc": "C09 C01 C14 C12",
    "include/symbolic/derived_predicate.h": "C10 C01 C14",
    "src/derived_predicate.cc": "C10 C01 C14 C12",
    "include/symbolic/pddl.h": "C01 C13 C11",
    "src/pddl.cc": "C11 C13 C01 C12 C10 C09",
    "include/symbolic/normal_form.h": "C16 C01",
    "src/normal_form.cc": "C16 C01 C12",
    "src/planning/planner.cc": "C02 C04 C14 C12",
    "include/symbolic/planning/planner.h": "C02 C04 C14",
    "include/symbolic/planning/breadth_first_search.h": "C02 C03 C14",
    "include/symbolic/planning/depth_first_search.h": "C04 C14",
    "include/symbolic/planning/a_star.h": "C04 C14",
    "symbolic/problem.py": "C15",
    "apps/pddl.cc": "C18",
    "src/python/symbolic.cc": "C19",
}
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"),
        (r"\+\+(?=\w)", "--"), (r"--(?=\w)", "++"), (r"!(?=[\w(])", ""), (r"\bbegin\(\)", "end()"), (r"\bfront\(\)", "back()"),
        (r"\bback\(\)", "front()"), (r"std::max\b", "std::min"), (r"std::min\b", "std::max"), (r" \+= ", " -= "), (r" \|= ", " = "),
        (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\.erase\(", ".count("), (r"\bconst (?=\w+ \w+ = )", "static const "),
        (r"\bstd::vector<(\w+)> (\w+);", r"static std::vector<\1> \2;"), (r"\bis not\b", "is"), (r" and ", " or "), (r" or ", " and "),
        (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\blower_bound\b", "upper_bound")]

BIND = [(r"py::keep_alive<\d, \d>\(\)", "py::is_operator()"), (r"&(\w+(?:::\w+)?)::(\w+)\)", r"&\1::\2, py::return_value_policy::reference)"),
        (r"&(\w+(?:::\w+)?)::(\w+)\)", r"&\1::\2, py::return_value_policy::copy)"), (r"state_pos, state_neg", "state_neg, state_pos"),
        (r"CopyValue\(([^(),]+(?:\([^()]*\))?), (\w+)\)", r"py::cast(\1)"), (r"IsValidState\(", "IsValidStateX("), (r"\.pos\(\)", ".neg()"),
        (r"StringSet& \w+\) ?\{", None), (r"\[0\]", "[1]"), (r"\bfirst\b", "second"), (r"Preconditions,", "Postconditions,"),
        (r"&Pddl::object_map", "&Pddl::constant_map"), (r"&Pddl::objects\b", "&Pddl::constants"), (r"&Pddl::actions\b", "&Pddl::predicates"),
        (r"domain_pddl\(\)", "problem_pddl()"), (r"const py::object& (\w+)\)", r"const py::object& \1) __attribute__((noinline))"),
        (r'"(\w+)"_a', r'"\1x"_a'), (r"\.first\b", ".second")]

def mutants(path, text):
    out = []
    comment = False
    lines = text.split("\n")
    py = path.endswith(".py")
    doc = False
    for i, l in enumerate(lines):
        s = l.strip()
        if py:
            if s.count('"""') == 1:
                doc = not doc
                continue
            if doc or s.startswith("#") or '"""' in s or s.startswith(("import", "from")): continue
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith(("//", "#", "*", "using", "template", "namespace", "class", "struct", "static_assert")): continue
        code = l.split("//")[0] if not py else l
        for pat, new in SUBS + (BIND if "python/symbolic" in path else []):
            if new is None: continue
            for m in re.finditer(pat, code):
                before = code[:m.start()]
                if before.count('"') % 2: continue
                n = code[:m.start()] + m.expand(new) + code[m.end():]
                out.append((i, pat, n))
        ind = l[:len(l) - len(l.lstrip())]
        complete = s.endswith(";") and s.count("(") == s.count(")") and s.count("{") == s.count("}")
        prev = lines[i - 1].strip() if i else ""
        starts = prev.endswith((";", "{", "}", ":")) or not prev or prev.startswith("//")
        if not py and complete and starts:
            if re.match(r"(if|for|while) \(", s) or re.match(r"[\w.*>\[\]()-]+(\(.*\)|( [-+|]?= .*));$", s) and not re.match(r"return\b", s) \
               or re.match(r"(continue|break);|(\+\+|--)\w+;", s):
                out.append((i, "delete", ind + ";"))
        if not py and re.match(r"if \(.*\) \{$", s):
            out.append((i, "if false", l.replace("if (", "if (false && (", 1)[:-3] + ")) {"))
            out.append((i, "if true", l.replace("if (", "if (true || (", 1)[:-3] + ")) {"))
        if py and re.match(r"[\w.]+(\(.*\)| [-+]?= .*)$", s) and s.count("(") == s.count(")"):
            out.append((i, "delete", ind + "pass"))
    seen, res = set(), []
    for i, k, n in out:
        if n == lines[i] or (i, n) in seen: continue
        seen.add((i, n))
        res.append((i, k, n))
    return res, lines

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--per-file", type=int, default=40)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--secs", default="8")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", default="4")
    ap.add_argument("--only", default="")  # jsonl with survivors to run again
    a = ap.parse_args()
    files = a.files.split(",") if a.files else list(MAP)
    rng = random.Random(a.seed)
    todo = []
    if a.only:
        for l in open(a.only):
            d = json.loads(l)
            if d["result"] == "survived": todo.append((d["file"], d["line"] - 1, d["kind"], d["new"]))
    else:
        for f in files:
            ms, _ = mutants(f, open("/repo/" + f).read())
            rng.shuffle(ms)
            todo += [(f,) + m for m in ms[:a.per_file]]
        rng.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    root = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    local = threading.local()
    n = [0]
    names = iter(range(100))
    code = r'''
import os, sys
sys.path.insert(0, os.path.join(sys.argv[1], "sim"))
import build
print(build.build([os.path.join(sys.argv[1], "sim/work", sys.argv[2] + ".cc")])[0])
'''
    import importlib.machinery, importlib.util
    loader = importlib.machinery.SourceFileLoader("check", os.path.join(V, "check"))
    spec = importlib.util.spec_from_loader("check", loader); chk = importlib.util.module_from_spec(spec); loader.exec_module(chk)
    def one(t):
        f, line, kind, new = t
        if not hasattr(local, "dir"):
            with lock: local.dir = os.path.join(root, "w%d" % next(names))
            os.makedirs(local.dir)
            subprocess.run("cp -a /repo %s/repo && rm -rf %s/repo/_build %s/repo/.git" % ((local.dir,) * 3), shell=True)
        src = os.path.join(local.dir, "repo", f)
        text = open("/repo/" + f).read()
        lines = text.split("\n")
        old = lines[line]
        lines[line] = new
        open(src, "w").write("\n".join(lines))
        env = dict(os.environ, SYMSIM_REPO=local.dir + "/repo", SYMSIM_BUILD=local.dir + "/build", PYTHONDONTWRITEBYTECODE="1")
        res, by = "survived", ""
        try:
            for c in MAP[f].split():
                if c == "C15":
                    r = subprocess.run([sys.executable, V + "/pysim/run.py", "check", "quick", "1", local.dir + "/ev.json"], env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                else:
                    b = subprocess.run([sys.executable, "-c", code, V, chk.CHECKS[c][0]], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.PIPE, text=True)
                    if b.returncode:
                        res = "does not compile"
                        break
                    r = subprocess.run([b.stdout.strip().split("\n")[-1], "check", "--prop", c, "--tier", "quick", "--seed", "1", "--secs", a.secs,
                                        "--jobs", a.jobs, "--out", local.dir + "/ev.json", "--known", V + "/known_findings.txt",
                                        "--replay-dir", local.dir + "/replays", "--scratch", local.dir, "--build-s", "1"],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                if r.returncode == 1:
                    res, by = "killed", c
                    break
                if r.returncode != 0:
                    res, by = "broken %d" % r.returncode, c + ": " + r.stdout[-300:]
                    break
        except subprocess.TimeoutExpired:
            res = "timeout"
        open(src, "w").write(text)
        for d, _, fs in os.walk(local.dir + "/build"):
            big = [os.path.join(d, x) for x in fs if x.startswith("symsim.")]
            for x in sorted(big, key=os.path.getmtime)[:-12]: os.remove(x)
        objs = local.dir + "/build/obj"
        if os.path.isdir(objs):
            xs = sorted((os.path.join(objs, x) for x in os.listdir(objs)), key=os.path.getmtime)
            for x in xs[:-160]: os.remove(x)
        with lock:
            n[0] += 1
            with open(a.out, "a") as o:
                o.write(json.dumps(dict(file=f, line=line + 1, kind=kind, old=old.strip(), new=new, result=res, by=by)) + "\n")
            if n[0] % 20 == 0: print(n[0], "done", flush=True)
    with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(root)
main()
