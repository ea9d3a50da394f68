#!/usr/bin/env python3
"""C15: the problem builder (symbolic/problem.py) under a deterministic simulation.

Clients are threads that hand a baton to each other, so exactly one runs at a time. A seeded scheduler
may take the baton away at any bytecode executed inside problem.py and between operations. Faults:
malformed facts at any position of a set, fact sets whose iteration fails, calls interrupted by an
exception at any bytecode, problems and goals dropped in mid-build. The iteration order of the fact
sets is chosen by the seed (and by the interpreter's hash seed, which is part of the run).

  run.py check TIER SEED EVIDENCE      explore, write evidence
  run.py replay FILE                   replay a violation
  run.py one SEED                      one run with its trace
  run.py hashes COUNT                  event hashes of COUNT runs (determinism proof)
"""
import gc
import hashlib
import json
import os
import subprocess
import sys
import threading
import time
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMSIM_REPO", "/repo")
SOURCE = os.path.join(REPO, "symbolic", "problem.py")
KNOWN = os.path.join(VERIF, "known_findings.txt")
MASK = (1 << 64) - 1


class Rng:
    """SplitMix64: the same everywhere, whatever the interpreter's version."""

    def __init__(self, seed):
        self.s = seed & MASK

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, a, b):
        return self.below(b) < a

    def pick(self, v):
        return v[self.below(len(v))]

    def shuffle(self, v):
        for i in range(len(v) - 1, 0, -1):
            j = self.below(i + 1)
            v[i], v[j] = v[j], v[i]


def mix(a, b):
    return Rng((a ^ (b * 0xD1342543DE82EF95)) & MASK).next()


TOOL = 3  # our number in sys.monitoring
CODE = {}  # source -> its code, compiled and instrumented once
CURRENT = None  # the simulation the events go to


def load():
    """A fresh module from the source, all of whose bytecodes report to the simulation."""
    if SOURCE not in CODE:
        with open(SOURCE) as f:
            code = compile(f.read(), SOURCE, "exec")
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "symsim")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, on_instruction)
        todo = [code]
        while todo:
            c = todo.pop()
            subs = [k for k in c.co_consts if isinstance(k, types.CodeType)]
            todo += subs
            if c is not code:
                mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)
        CODE[SOURCE] = code
    module = types.ModuleType("symsim_problem")
    module.__file__ = SOURCE
    exec(CODE[SOURCE], module.__dict__)
    return module


def on_instruction(code, offset):
    sim = CURRENT
    if sim is not None:
        sim.event(code, offset)


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig, self.msg = sig, msg


class Interrupt(BaseException):
    """The injected exception (like one of a signal handler, or memory running out)."""


class Broken(Exception):
    """Raised by a fact set whose iteration fails."""


# ---- the scheduler
class Sim:
    def __init__(self, seed, spec):
        self.rng = Rng(mix(seed, 77))
        self.spec = spec  # {"ops_off": set, "faults_off": set, "switches": None or {(client, op, event): to}}
        self.clients = []
        self.sems = []
        self.done = []
        self.finished = threading.Event()
        self.hash = hashlib.blake2b(digest_size=8)
        self.trace = []
        self.switches = []  # (client, op, event, to), as made
        self.events = 0
        self.preemptions = 0
        self.faults = {}
        self.probes = {}
        self.violation = None
        self.gap = 0
        self.local = threading.local()
        self.places = set()

    def log(self, text):
        self.hash.update(text.encode())
        self.hash.update(b"\0")
        self.trace.append("    " + text)

    def fired(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, what):
        self.probes[what] = self.probes.get(what, 0) + 1

    def choose(self, me, op, event):
        """Who runs next. A plan (replay) decides, else the seeded scheduler."""
        runnable = [c for c in range(len(self.clients)) if not self.done[c]]
        if not runnable:
            return None
        if self.spec["switches"] is not None:
            to = self.spec["switches"].get((me, op, event), me)
            if to in runnable:
                return to
            return me if me in runnable else runnable[0]
        return self.rng.pick(runnable)

    def hand(self, me, to, op, event):
        if to == me:
            return
        self.switches.append((me, op, event, to))
        self.hash.update(b"switch %d %d %d %d" % (me, op, event, to))
        self.sems[to].release()
        self.sems[me].acquire()

    def boundary(self, me, op):
        to = self.choose(me, op, -1)
        if to is not None:
            self.hand(me, to, op, -1)

    # Called for every bytecode executed in problem.py.
    def event(self, code, offset):
        t = self.local
        if not getattr(t, "inside", False):
            return
        t.event += 1
        self.events += 1
        self.places.add((code.co_name, offset))
        if t.event == t.interrupt_at:
            t.inside = False
            t.interrupted = True
            raise Interrupt()
        if t.event >= t.next_at:
            self.plan(t)
            self.maybe_preempt(t)

    def plan(self, t):
        if self.spec["switches"] is not None:
            t.next_at = t.event + 1
        elif self.gap == 0:
            t.next_at = MASK
        else:
            t.next_at = t.event + 1 + self.rng.below(2 * self.gap)

    def maybe_preempt(self, t):
        to = self.choose(t.me, t.op, t.event)
        if to is None or to == t.me:
            return
        self.preemptions += 1
        t.inside = False
        self.hand(t.me, to, t.op, t.event)
        t.inside = True

    def call(self, f):
        """A call into the builder. Returns (result, exception)."""
        t = self.local
        t.interrupted = False
        t.inside = True
        try:
            return f(), None
        except Exception as e:  # noqa: BLE001
            return None, e
        except Interrupt as e:
            return None, e
        finally:
            t.inside = False
            t.interrupt_at = 0

    def run_client(self, me, ops):
        t = self.local
        t.me, t.inside, t.event, t.next_at, t.op, t.interrupt_at = me, False, 0, 0, 0, 0
        self.sems[me].acquire()
        try:
            for number, label, faults, fn in ops:
                if self.violation:
                    break
                if number in self.spec["ops_off"]:
                    continue
                t.op, t.event = number, 0
                self.boundary(me, number)
                if self.violation:
                    break
                self.plan(t)
                on = {k: v for i, (k, v) in faults.items() if i not in self.spec["faults_off"]}
                t.interrupt_at = on.get("interrupt", 0)
                self.trace.append("client %d op %d: %s" % (me, number, label))
                self.hash.update(b"op %d %d" % (me, number))
                fn(on)
        except Violation as v:
            self.violation = self.violation or v
        except BaseException as e:  # noqa: BLE001
            self.violation = self.violation or Violation("harness", "%s: %s" % (type(e).__name__, e))
        self.done[me] = True
        left = [c for c in range(len(self.clients)) if not self.done[c]]
        if not left:
            self.finished.set()
            return
        to = left[0]
        if self.spec["switches"] is None:
            to = self.rng.pick(left)
        else:
            to = self.spec["switches"].get((me, -1, -1), to)
            to = to if to in left else left[0]
        self.switches.append((me, -1, -1, to))
        self.sems[to].release()

    def run(self):
        threads = []
        for c, ops in enumerate(self.clients):
            self.sems.append(threading.Semaphore(0))
            self.done.append(False)
            threads.append(threading.Thread(target=self.run_client, args=(c, ops), daemon=True))
        for th in threads:
            th.start()
        self.sems[0].release()
        if not self.finished.wait(60):
            raise Violation("hang", "no progress for 60 s")
        for th in threads:
            th.join()


# ---- the reference: what a text of PDDL says
def read(text):
    """Reads one s-expression; Violation if it is not one."""
    stack, top = [], []
    for token in text.replace("(", " ( ").replace(")", " ) ").split():
        if token == "(":
            stack.append([])
        elif token == ")":
            if not stack:
                raise Violation("ill-formed", "a parenthesis closes nothing in: " + text)
            x = stack.pop()
            (stack[-1] if stack else top).append(x)
        else:
            (stack[-1] if stack else top).append(token)
    if stack:
        raise Violation("ill-formed", "a parenthesis is left open in: " + text)
    if len(top) != 1:
        raise Violation("ill-formed", "%d expressions instead of one in: %s" % (len(top), text))
    return top[0]


def typed(tokens, text):
    """Names with types, as PDDL reads a typed list."""
    out, names, i = [], [], 0
    while i < len(tokens):
        if tokens[i] == "-":
            if not names or i + 1 >= len(tokens) or not isinstance(tokens[i + 1], str):
                raise Violation("ill-formed", "a type without names, or a dash without a type, in: " + text)
            out += [(n, tokens[i + 1]) for n in names]
            names = []
            i += 2
            continue
        if not isinstance(tokens[i], str):
            raise Violation("ill-formed", "an expression among the objects in: " + text)
        names.append(tokens[i])
        i += 1
    return out + [(n, "") for n in names]


class Model:
    def __init__(self, name, domain):
        self.name, self.domain = name, domain
        self.objects, self.facts, self.goal = [], [], ["and"]

    def copy(self):
        m = Model(self.name, self.domain)
        m.objects, m.facts, m.goal = list(self.objects), list(self.facts), self.goal
        return m


def denotes(text):
    """What a problem's text says: (name, domain, objects, facts, goal)."""
    x = read(text)
    heads = [s[0] if isinstance(s, list) and s else s for s in x]
    if heads != ["define", "problem", ":domain", ":objects", ":init", ":goal"]:
        raise Violation("ill-formed", "sections %s in: %s" % (heads, text))
    if len(x[1]) != 2 or len(x[2]) != 2 or len(x[5]) != 2:
        raise Violation("ill-formed", "a section of the wrong length in: " + text)
    facts = []
    for f in x[4][1:]:
        if not isinstance(f, list) or not f or not all(isinstance(a, str) for a in f):
            raise Violation("ill-formed", "something that is no fact in :init: " + text)
        facts.append(tuple(f))
    return x[1][1], x[2][1], typed(x[3][1:], text), facts, x[5][1]


def check_text(text, m, where):
    name, domain, objects, facts, goal = denotes(text)
    if (name, domain) != (m.name, m.domain):
        raise Violation("name", "%s: problem %s of %s instead of %s of %s" % (where, name, domain, m.name, m.domain))
    if sorted(objects) != sorted(m.objects):
        raise Violation("objects", "%s: the objects are %s instead of %s" % (where, sorted(objects), sorted(m.objects)))
    if set(facts) != set(m.facts):
        raise Violation("facts", "%s: the initial facts are %s instead of %s" % (where, sorted(set(facts)), sorted(set(m.facts))))
    if goal != m.goal:
        raise Violation("goal", "%s: the goal is %s instead of %s" % (where, goal, m.goal))


# ---- inputs
class Facts(set):
    """A set of facts whose iteration order the simulator decides, and which may fail."""

    def arrange(self, rng, fail_at=None):
        self.order = sorted(set.__iter__(self))
        rng.shuffle(self.order)
        self.fail_at = fail_at
        return self

    def __iter__(self):
        for i, x in enumerate(self.order):
            if i == self.fail_at:
                raise Broken("the set cannot be read")
            yield x


PREDS = ["on", "inhand", "handempty", "at-rest", "p", "on-p", "On", "at_Rest2"]
TYPES = ["", "", "block", "table", "movable-thing", "Block", "t_1"]


def draw_fact(r, names):
    return (r.pick(PREDS),) + tuple(r.pick(names) for _ in range(r.below(3)))


def write_fact(r, fact):
    if len(fact) > 1 and r.chance(1, 3) or r.chance(1, 6):
        return "(" + " ".join(fact) + ")"
    sep = r.pick([", ", ",", " , "])
    return fact[0] + "(" + sep.join(fact[1:]) + ")"


MALFORMED = ["on a b", "on", "on)a, b("[:6], "handempty"]


class Goal:
    """A goal: how to build it with the builder's functions, and what it must read as."""

    def __init__(self, r, names, depth, bound=()):
        kind = r.range(0, 10) if depth > 0 else r.range(0, 2)
        self.kids = []
        terms = list(names) + list(bound)
        if kind <= 2:
            fact = (r.pick(PREDS),) + tuple(r.pick(terms) for _ in range(r.below(3)))
            self.kind = "raw" if r.chance(1, 3) else "P"
            self.fact = fact
            self.reads = list(fact)
            return
        if kind <= 6:
            self.kind = "and" if kind <= 4 else "or"
            self.kids = [Goal(r, names, depth - 1, bound) for _ in range(r.below(4))]
            self.reads = [self.kind] + [k.reads for k in self.kids]
            return
        if kind == 7:
            self.kind = "not"
            self.kids = [Goal(r, names, depth - 1, bound)]
            self.reads = ["not", self.kids[0].reads]
            return
        if kind == 10:
            self.kind = "when"
            self.kids = [Goal(r, names, depth - 1, bound) for _ in range(2)]
            self.reads = ["when"] + [k.reads for k in self.kids]
            return
        self.kind = "forall" if kind == 8 else "exists"
        self.var = r.pick("xyz") + str(depth)
        self.type = r.pick(TYPES)
        self.kids = [Goal(r, names, depth - 1, tuple(bound) + ("?" + self.var,))]
        self.reads = [self.kind, ["?" + self.var] + (["-", self.type] if self.type else []), self.kids[0].reads]

    def make(self, m):
        if self.kind == "raw":
            return "(" + " ".join(self.fact) + ")"
        if self.kind == "P":
            return m._P(*self.fact)
        kids = [k.make(m) for k in self.kids]
        if self.kind == "and":
            return m._and(*kids)
        if self.kind == "or":
            return m._or(*kids)
        if self.kind == "when":
            return m._when(*kids)
        if self.kind == "not":
            return m._not(kids[0])
        return (m._forall if self.kind == "forall" else m._exists)(self.var, self.type, kids[0])


def frozen(x):
    """A value copy of a goal, to see whether anyone changed it."""
    return x if isinstance(x, str) else (type(x).__name__,) + tuple(frozen(k) for k in x)


# ---- the workload
class Case:
    def __init__(self, seed, spec):
        self.seed = seed
        self.m = load()
        self.sim = Sim(seed, spec)
        self.ops_total = self.faults_total = 0
        self.planned = {}
        r = Rng(seed)
        self.sim.gap = r.pick([0, 3, 10, 30, 100])
        self.looks = r.pick([1, 3, 3, 12])  # how often the problems are looked at: 1 in so many
        self.names = r.pick([["a", "b", "c", "box", "hook-1"], ["box-1", "box", "bo", "box-11", "ox"], ["Box", "box", "BOX_2", "b-O-x", "x2"]])[: r.range(2, 5)]
        self.goals = []  # shared by all clients: (object, snapshot, reads)
        for _ in range(r.range(1, 2)):
            g = Goal(r, self.names, r.range(0, 3))
            made = g.make(self.m)
            self.goals.append((made, frozen(made), g.reads))
        self.sets = []
        for _ in range(2):
            facts = [draw_fact(r, self.names) for _ in range(r.below(r.pick([5, 5, 12])))]
            s = Facts(write_fact(r, f) for f in facts).arrange(r)
            self.sets.append((s, list(s.order), facts))
        clients = r.range(1, 3)
        self.mine = [[] for _ in range(clients)]  # [problem, model, snapshots]
        for c in range(clients):
            ops = []
            for _ in range(r.range(3, 20 if clients == 1 else 9)):
                ops.append(self.draw(r, c, len(ops) == 0))
            self.sim.clients.append(ops)

    def draw(self, r, c, first):
        kinds = [("new", 3), ("object", 6), ("fact", 5), ("facts", 5), ("goal", 3), ("text", 5), ("keep", 2), ("parts", 2),
                 ("drop", 1), ("formula", 2), ("parse", 1), ("bad fact", 2), ("bad facts", 3)]
        at = r.below(sum(w for _, w in kinds))
        for kind, w in kinds:
            if at < w:
                break
            at -= w
        if first:
            kind = "new"
        faults = {}
        if kind in ("bad fact", "bad facts"):
            self.planned["malformed_input"] = self.planned.get("malformed_input", 0) + 1
        if kind not in ("new", "keep", "parse", "drop") and r.chance(1, 5):
            n = 1 + r.below(1 << r.range(1, 11))
            faults[self.faults_total] = ("interrupt", n)
            self.faults_total += 1
            self.planned["interrupt"] = self.planned.get("interrupt", 0) + 1
        number = self.ops_total
        self.ops_total += 1
        sub = r.next()
        return number, kind, faults, lambda on: self.do(c, kind, sub, on)

    def text(self, p, where):
        text, e = self.sim.call(lambda: repr(p))
        if e is not None and not self.sim.local.interrupted:
            raise Violation("unexpected-error", "%s: rendering raised %s: %s" % (where, type(e).__name__, e))
        return text, e

    def check(self, entry, where):
        text, _ = self.text(entry[0], where)
        self.sim.log(text)
        check_text(text, entry[1], where)

    # An operation that changes one problem: all of it or, if it raises, nothing of it.
    def change(self, entry, label, f, after, must_raise=False):
        sim, before = self.sim, entry[1]
        sim.log(label)
        _, e = sim.call(f)
        interrupted = sim.local.interrupted
        if interrupted:
            sim.fired("interrupt")
            sim.log("interrupted")
            # As far as it got; but nothing that was not asked for.
            text, _ = self.text(entry[0], "after the interruption of " + label)
            name, domain, objects, facts, goal = denotes(text)
            now = before.copy()
            now.objects, now.facts, now.goal = objects, facts, goal
            ok = (name, domain) == (before.name, before.domain) and goal in (before.goal, after.goal)
            ok = ok and set(before.objects) <= set(objects) <= set(after.objects) and len(objects) <= len(after.objects)
            ok = ok and set(before.facts) <= set(facts) <= set(after.facts)
            if not ok:
                raise Violation("interrupted", "after the interruption of %s the problem is %s" % (label, text))
            entry[1] = now
            return
        if must_raise:
            sim.fired("malformed_input")
            if e is None:
                raise Violation("accepted", label + " was accepted")
            sim.log(type(e).__name__)
            self.check(entry, "after the refusal of " + label)
            return
        if e is not None:
            raise Violation("unexpected-error", "%s raised %s: %s" % (label, type(e).__name__, e))
        entry[1] = after
        if self.local_rng.chance(1, self.looks):
            self.check(entry, "after " + label)

    def do(self, c, kind, sub, on):
        r = Rng(sub)
        self.local_rng = r
        m, sim, mine = self.m, self.sim, self.mine[c]
        if kind == "new" or not mine:
            if len(mine) >= 3:
                return
            name, domain = "p%d-%d" % (c, len(mine)), r.pick(["workspace", "d"])
            sim.local.interrupt_at = 0
            p, e = sim.call(lambda: m.Problem(name, domain))
            if e is not None:
                raise Violation("unexpected-error", "a new problem raised %s" % e)
            mine.append([p, Model(name, domain), []])
            self.check(mine[-1], "a new problem")
            return
        entry = r.pick(mine)
        p, model = entry[0], entry[1]
        if kind == "object":
            name = r.pick(self.names) if r.chance(2, 5) else r.pick(["o", "longer-name-"]) + str(len(model.objects))
            while any(name == n for n, _ in model.objects):
                name += "x"
            kind_of = r.pick(TYPES)
            after = model.copy()
            after.objects.append((name, kind_of))
            if kind_of or r.chance(1, 2):
                self.change(entry, "adding %s - %s" % (name, kind_of), lambda: p.add_object(name, kind_of), after)
            else:
                self.change(entry, "adding " + name, lambda: p.add_object(name), after)
        elif kind == "fact":
            fact = draw_fact(r, self.names)
            text = write_fact(r, fact)
            after = model.copy()
            after.facts.append(fact)
            self.change(entry, "the fact " + text, lambda: p.add_initial_prop(text), after)
        elif kind == "facts":
            after = model.copy()
            if r.chance(1, 2):
                given, order, facts = r.pick(self.sets)
            else:
                facts = [draw_fact(r, self.names) for _ in range(r.below(r.pick([5, 5, 12])))]
                given = Facts(write_fact(r, f) for f in facts)
                how = r.below(3)
                if how == 0:
                    given.arrange(r)
                elif how == 1:
                    given = set(given.arrange(r).order)  # the interpreter's own order
                    sim.probe("set in the interpreter's order")
                else:
                    given = frozenset(given.arrange(r).order)
            after.facts += facts
            self.change(entry, "the facts " + ", ".join(sorted(given)), lambda: p.set_initial_state(given), after)
        elif kind == "bad fact":
            text = r.pick(MALFORMED)
            self.change(entry, "the malformed fact " + text, lambda: p.add_initial_prop(text), model, True)
        elif kind == "bad facts":
            facts = [draw_fact(r, self.names) for _ in range(r.range(1, 5))]
            given = Facts(write_fact(r, f) for f in facts)
            if r.chance(1, 4):
                given.arrange(r, r.below(len(set(facts))))
                given.fail_at = min(given.fail_at, len(given.order) - 1)
                sim.fired("failing_iteration")
            else:
                given.add(r.pick(MALFORMED))
                given.arrange(r)
            after = model.copy()
            after.facts += facts  # if interrupted before it is refused
            self.change(entry, "the facts " + ", ".join(given.order), lambda: p.set_initial_state(given), after, True)
        elif kind == "goal":
            if r.chance(1, 2):
                goal, _, reads = r.pick(self.goals)
            else:
                g = Goal(r, self.names, r.range(0, 3))
                goal, e = sim.call(lambda: g.make(m))
                if sim.local.interrupted:
                    sim.fired("interrupt")
                    return
                if e is not None:
                    raise Violation("unexpected-error", "building a goal raised %s" % e)
                reads = g.reads
            after = model.copy()
            after.goal = reads
            self.change(entry, "the goal " + str(reads), lambda: p.set_goal(goal), after)
        elif kind == "text":
            text, e = self.text(p, "text")
            if e is not None:
                sim.fired("interrupt")
                text, e = self.text(p, "text after an interruption")
            sim.log(text)
            check_text(text, model, "the text")
        elif kind == "keep":
            d, e = sim.call(lambda: p.definition)
            if e is not None:
                raise Violation("unexpected-error", "the definition raised %s" % e)
            entry[2].append((d, model.copy()))
        elif kind == "parts":
            parts, e = sim.call(lambda: [m.pprint_formula(x) for x in (p.problem, p.domain, p.objects, p.initial_state, p.goal)])
            if sim.local.interrupted:
                sim.fired("interrupt")
                return
            if e is not None:
                raise Violation("unexpected-error", "a section raised %s" % e)
            text = "(define " + " ".join(parts) + ")"
            sim.log(text)
            check_text(text, model, "the sections")
        elif kind == "drop":
            mine.remove(entry)
            del entry, p
            sim.fired("abandon")
        elif kind == "formula":
            g = Goal(r, self.names, r.range(0, 3))
            text, e = sim.call(lambda: m.pprint_formula(g.make(m)))
            if sim.local.interrupted:
                sim.fired("interrupt")
                return
            if e is not None:
                raise Violation("unexpected-error", "a formula raised %s" % e)
            sim.log(text)
            if read(text) != g.reads:
                raise Violation("formula", "a formula reads %s instead of %s" % (read(text), g.reads))
        elif kind == "parse":
            fact = draw_fact(r, self.names)
            if len(fact) == 1:
                return
            text = fact[0] + "(" + r.pick([", ", ","]).join(fact[1:]) + ")"
            got, e = sim.call(lambda: (m.parse_proposition(text), m.parse_head(text), m.parse_args(text)))
            if e is not None:
                raise Violation("unexpected-error", "parsing %s raised %s" % (text, e))
            head, args = fact[0], list(fact[1:])
            if (got[0][0], list(got[0][1]), got[1], list(got[2])) != (head, args, head, args):
                raise Violation("parse", "%s reads as %s" % (text, got))
            # The lists are the caller's own.
            for given in (got[0][1], got[2]):
                if isinstance(given, list):
                    given[0] = "somewhere-else"
                    given.append("more")
        self.untouched(mine, "after " + kind)

    def untouched(self, mine, where):
        r = self.local_rng
        self.sim.local.interrupt_at = 0
        for given, order, _ in self.sets:
            if sorted(set.__iter__(given)) != sorted(order):
                raise Violation("set-changed", where + ": a set of facts that was passed in has changed")
        for made, snapshot, _ in self.goals:
            if frozen(made) != snapshot:
                raise Violation("goal-changed", where + ": a goal that was passed in has changed")
        for entry in mine:
            if r.chance(1, self.looks * 2):
                self.check(entry, where + ", a problem")
            for d, model in entry[2]:
                if r.chance(1, self.looks * 2):
                    text, e = self.sim.call(lambda: self.m.pprint_formula(d))
                    if e is not None:
                        raise Violation("unexpected-error", "a definition taken earlier raised %s" % e)
                    check_text(text, model, where + ", a definition taken earlier")

    def run(self):
        sim = self.sim
        global CURRENT
        gc.disable()
        CURRENT = sim
        try:
            sim.run()
            if sim.violation is None:
                t = sim.local
                t.me, t.inside, t.event, t.next_at, t.op, t.interrupt_at = -1, False, 0, MASK, -1, 0
                saved, sim.spec = sim.spec, dict(sim.spec, switches={})
                self.local_rng = Rng(3)
                for mine in self.mine:
                    for entry in mine:
                        self.check(entry, "at the end, a problem")
                    self.untouched(mine, "at the end")
                sim.spec = saved
        except Violation as v:
            sim.violation = v
        finally:
            CURRENT = None
            gc.enable()
        return sim


def execute(seed, spec):
    return Case(seed, spec).run()


def blank(switches=None, ops_off=(), faults_off=()):
    return {"switches": switches, "ops_off": set(ops_off), "faults_off": set(faults_off)}


def plan_of(sim):
    return {(a, b, c): to for a, b, c, to in sim.switches}


# ---- processes
def worker(first, step, secs, limit):
    """Runs seeds until the time is up; prints one JSON line."""
    base = int(os.environ["C15_SEED"])
    t0 = time.time()
    n = events = preempt = switches = ops = repeats = 0
    hashes, faults, planned, probes, lines, samples, schedules = set(), {}, {}, {}, set(), [], set()
    bad = None
    i = first
    while time.time() - t0 < secs and (limit == 0 or n < limit):
        seed = mix(base, i)
        case = Case(seed, blank())
        sim = case.run()
        n += 1
        events += sim.events
        preempt += sim.preemptions
        switches += len(sim.switches)
        ops += case.ops_total
        hashes.add(sim.hash.hexdigest())
        schedules.add(hash(tuple(sim.switches)))
        lines |= sim.places
        for d, s in ((faults, sim.faults), (planned, case.planned), (probes, sim.probes)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        if len(samples) < 1 and n > 3:
            samples.append({"seed": seed, "trace": sim.trace[:40]})
        if sim.violation:
            bad = {"seed": seed, "sig": sim.violation.sig, "msg": sim.violation.msg, "first": first, "step": step, "count": n}
            break
        if n % 200 == 0:
            again = execute(seed, blank())
            repeats += 1
            if again.hash.digest() != sim.hash.digest():
                bad = {"seed": seed, "sig": "not-deterministic", "msg": "the same seed gave two executions"}
                break
        i += step
    print(json.dumps({"runs": n, "events": events, "preemptions": preempt, "switches": switches, "ops": ops,
                      "hashes": len(hashes), "schedules": len(schedules), "faults": faults, "planned": planned, "probes": probes,
                      "places": sorted(lines), "samples": samples, "repeats": repeats, "bad": bad}))


def shrink(seed, sig):
    """Fewer operations, faults and switches that still show the violation."""
    sim = execute(seed, blank())
    best = blank(plan_of(sim))
    tries = 0

    def still(spec):
        nonlocal tries
        tries += 1
        s = execute(seed, spec)
        return s if s.violation and s.violation.sig == sig else None

    if still(best) is None:
        best = blank(None)  # the plan does not carry over: keep the seeded schedule
        return best, execute(seed, best), tries
    case = Case(seed, blank())
    for what, count in (("ops_off", case.ops_total), ("faults_off", case.faults_total)):
        items = [x for x in range(count) if x not in best[what]]
        size = max(1, len(items) // 2)
        while size >= 1 and tries < 400:
            k = 0
            while k < len(items):
                cut = items[k:k + size]
                spec = dict(best, **{what: best[what] | set(cut)})
                if still(spec):
                    best = spec
                    items = items[:k] + items[k + size:]
                else:
                    k += size
            size //= 2
    for key in list(best["switches"]):
        if tries > 600:
            break
        plan = dict(best["switches"])
        del plan[key]
        spec = dict(best, switches=plan)
        if still(spec):
            best = spec
    # Only what still happens.
    sim = execute(seed, best)
    spec = dict(best, switches=plan_of(sim))
    if still(spec):
        best = spec
        sim = execute(seed, best)
    return best, sim, tries


def rerun(q):
    for k in range(q["count"]):
        seed = mix(int(q["base"]), q["first"] + k * q["step"])
        sim = execute(seed, blank())
        if sim.violation:
            break
        if (k + 1) % 200 == 0:
            execute(seed, blank())
    return sim


def write_replay(path, seed, spec, sim, tries, sequence=None):
    with open(path, "w") as f:
        f.write("symsim-replay 1\nproperty C15\n")
        f.write(json.dumps({
            "seed": seed, "hash_seed": os.environ.get("PYTHONHASHSEED", "0"), "sig": sim.violation.sig, "hash": sim.hash.hexdigest(),
            "sequence": sequence,
            "ops_off": sorted(spec["ops_off"]), "faults_off": sorted(spec["faults_off"]),
            "switches": None if spec["switches"] is None else sorted([*k, v] for k, v in spec["switches"].items())}) + "\n")
        f.write("# %s\n# minimised: %d attempts\n# trace:\n" % (sim.violation.msg.replace("\n", "\\n"), tries))
        for line in sim.trace:
            f.write("# " + line.replace("\n", "\\n") + "\n")


def known():
    sigs = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=C15 "):
                sigs[line.split("sig=", 1)[1].split()[0]] = line.strip()
    return sigs


def with_hash_seed(args, hash_seed, **kw):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([sys.executable, os.path.abspath(__file__)] + args, env=env, **kw)


def check(tier, seed, out):
    t0 = time.time()
    secs = 20 if tier == "quick" else 420
    jobs = max(2, min(16, os.cpu_count() or 8))
    os.environ["C15_SEED"] = str(mix(int(seed), 15))
    procs = [with_hash_seed(["worker", str(j), str(jobs), str(secs), "0"], 1 + (int(seed) * 1000 + j) % 4294967000,
                            stdout=subprocess.PIPE, text=True) for j in range(jobs)]
    res, bad = [], None
    for j, p in enumerate(procs):
        text, _ = p.communicate()
        if p.returncode != 0:
            bad = bad or {"seed": 0, "sig": "crash", "msg": "a worker ended with status %d" % p.returncode}
            continue
        x = json.loads(text)
        res.append(x)
        if x["bad"] and (bad is None or bad["sig"] == "crash"):
            bad = dict(x["bad"], hash_seed=1 + (int(seed) * 1000 + j) % 4294967000)
    rc, violations = 0, 0
    if bad:
        violations = 1
        rc = 1
        if bad["sig"] in ("crash", "harness", "not-deterministic"):
            print("ERROR: " + bad["msg"])
            rc = 2
        else:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "C15-%d.replay" % bad["seed"])
            p = with_hash_seed(["shrink", str(bad["seed"]), bad["sig"], path, str(bad["first"]), str(bad["step"]), str(bad["count"])],
                               bad["hash_seed"], stdout=subprocess.PIPE, text=True)
            p.communicate()
            print("violation: [%s] %s" % (bad["sig"], bad["msg"].replace("\n", " ")[:1000]))
            if os.path.exists(path):
                for line in open(path):
                    if line.startswith("# "):
                        print("|" + line[1:].rstrip()[:300])
            print("VIOLATION property=C15 replay=%s" % path)
    total = {k: sum(x[k] for x in res) for k in ("runs", "events", "preemptions", "switches", "ops", "hashes", "schedules", "repeats")}
    faults = {}
    for x in res:
        for k, v in x["planned"].items():
            faults.setdefault(k, {"planned": 0, "fired": 0})["planned"] += v
        for k, v in x["faults"].items():
            faults.setdefault(k, {"planned": 0, "fired": 0})["fired"] += v
    probes = {}
    for x in res:
        for k, v in x["probes"].items():
            probes[k] = probes.get(k, 0) + v
    wall = time.time() - t0
    json.dump({
        "property": "C15", "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": total["runs"], "distinct_nontrivial": total["hashes"],
            "rule": "One run: 1-3 clients build up to three problems each (objects, facts, fact sets, goals, also shared ones), render "
                    "them whole and in parts and keep earlier definitions, with malformed facts, failing sets, interrupted calls and "
                    "abandoned problems; every text is read back by an independent reader and compared with what was given. "
                    "Every run makes at least 3 calls. Distinct: different hash over every operation, result, fault and switch.",
            "samples": [s for x in res for s in x["samples"]][:3],
            "simulated_runs_and_seeds_per_hour": int(total["runs"] / wall * 3600),
            "operations": total["ops"], "bytecodes_in_problem_py": total["events"], "preemptions_inside_calls": total["preemptions"],
            "context_switches": total["switches"], "distinct_schedules": total["schedules"],
            "bytecodes_of_problem_py_reached": len(set(tuple(l) for x in res for l in x["places"])),
            "hash_seeds": jobs, "runs_repeated_for_determinism": total["repeats"], "faults": faults, "probes": probes,
            "simulated_seconds": 0,
            "real_components": ["symbolic/problem.py"], "stub_components": ["thread scheduler (seeded, per bytecode)"],
        },
        "assumptions": ["one client builds a given problem; goals and fact sets are shared",
                        "the bindings cannot be built here, so problem.py is loaded by itself"],
        "wall_s": round(wall, 2), "violations": violations}, open(out, "w"), indent=1)
    print("C15 %s: %d runs (%d distinct), %d preemptions, %.1f s, exit %d" % (tier, total["runs"], total["hashes"],
                                                                             total["preemptions"], wall, rc))
    for k, v in sorted(faults.items()):
        print("  fault %-18s planned %d fired %d" % (k, v["planned"], v["fired"]))
    return rc


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "check":
        return check(argv[1], argv[2], argv[3])
    if argv[0] == "worker":
        worker(int(argv[1]), int(argv[2]), float(argv[3]), int(argv[4]))
        return 0
    if argv[0] == "shrink":
        seed = int(argv[1])
        sim = execute(seed, blank())
        if sim.violation and sim.violation.sig == argv[2]:
            spec, sim, tries = shrink(seed, argv[2])
        if sim.violation and sim.violation.sig == argv[2]:
            write_replay(argv[3], seed, spec, sim, tries)
        else:
            # It takes the runs before it too (something they left in the process): replay them all.
            sequence = {"base": os.environ["C15_SEED"], "first": int(argv[4]), "step": int(argv[5]), "count": int(argv[6])}
            sim = rerun(sequence)
            if sim.violation is None:
                sim.violation = Violation(argv[2], "(not seen again when the runs before it were repeated)")
            write_replay(argv[3], seed, blank(), sim, 0, sequence)
        return 0
    if argv[0] == "replay":
        lines = open(argv[1]).read().split("\n")
        x = json.loads(lines[2])
        if os.environ.get("PYTHONHASHSEED") != x["hash_seed"]:
            return with_hash_seed(argv, x["hash_seed"]).wait()
        switches = None if x["switches"] is None else {tuple(s[:3]): s[3] for s in x["switches"]}
        sim = rerun(x["sequence"]) if x.get("sequence") else execute(x["seed"], blank(switches, x["ops_off"], x["faults_off"]))
        print("\n".join("| " + t for t in sim.trace))
        sig = sim.violation.sig if sim.violation else "nothing"
        print("recorded: %s %s" % (x["sig"], x["hash"]))
        print("replayed: %s %s %s" % (sig, sim.hash.hexdigest(), sim.violation.msg if sim.violation else ""))
        if sim.violation:
            print("VIOLATION property=C15 replay=" + argv[1])
            return 1
        return 0
    if argv[0] == "one":
        sim = execute(int(argv[1]), blank())
        print("\n".join(sim.trace))
        print(sim.violation.sig + ": " + sim.violation.msg if sim.violation else "no violation")
        return 1 if sim.violation else 0
    if argv[0] == "hashes":
        if os.environ.get("PYTHONHASHSEED") != "0":
            return with_hash_seed(argv, 0).wait()
        for i in range(int(argv[1])):
            print(execute(mix(15, i), blank()).hash.hexdigest())
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
