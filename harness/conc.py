"""C19: parses that run at the same time with the same parser objects.

 1. every interleaving of spec/Conc.tla (two parses, switches at calls of user code) replayed on two real threads;
 2. random pairs of parses on two threads, switched in the middle of library code (after n executed lines);
 3. parses re-entered from user callbacks.
The outcome of each parse is compared with that of the same parse done alone."""
import os
import random
import sys
import threading

import library
import reparsec
from build import Env
from gen import ALPHA, Gen, damage, sentence
from histories import CFG as _, explore, matches, one_alone  # noqa: F401
from profiles import as_stream
from record import Hang, Rec, call_parse, outcome

from reparsec import ParseError
from build import Boom, Tok
from record import Seq

SRC = os.path.dirname(os.path.abspath(reparsec.__file__))

CFG = """SPECIFICATION Spec
CONSTANTS
  Graph <- SoloGraph
  Input <- SoloInput
  MaxSwitch = %d
INVARIANTS Independent
CHECK_DEADLOCK FALSE
"""
GIVE_UP = 5.0


class Switch:
    """Lets one of two threads run at a time.  plan: lengths of the runs, starting with thread 0; when it is used up,
    or the other thread has ended, the running thread runs on."""

    def __init__(self, plan):
        self.plan = list(plan)
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.over = [False, False]
        self.ids = {}
        self.left = self.plan.pop(0)
        self.off = False

    def step(self, t=None):
        if t is None:
            t = self.ids.get(threading.get_ident())
            if t is None:
                return
        if self.off:
            return
        if self.left == 0 and self.plan and not self.over[1 - t]:
            self.left = self.plan.pop(0)
            self.hand(t)
        if self.left > 0:
            self.left -= 1

    def hand(self, t):
        self.sem[1 - t].release()
        # a library that locks cannot be interrupted everywhere: then both run freely
        if not self.sem[t].acquire(timeout=0.5 if not self.over[1 - t] else GIVE_UP):
            self.off = True

    def end(self, t):
        self.over[t] = True
        self.sem[1 - t].release()


def guard_thread(fn, *a, **k):
    try:
        return "ok", fn(*a, **k)
    except ParseError as e:
        return "err", e
    except RecursionError:
        return "other:RecursionError", None
    except RuntimeError:
        return "runtime", None
    except Boom:
        return "boom", None
    except Exception as e:
        return "other:" + type(e).__name__, None


def full(p, stream, km, slow, mi, style, gate=None):
    kind, r = guard_thread(call_parse, p, stream, km, slow, mi, style, gate)
    if kind != "ok":
        return [outcome(kind, r)] * 2
    return [outcome(*guard_thread(r.unwrap, recover=u)) for u in (False, True)]


def two_threads(sw, jobs, trace, opcodes=False):
    """jobs: two argument tuples of full -> their outcomes"""
    out = [None, None]

    def tracer(t):
        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                sw.step(t)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def body(t):
        sw.ids[threading.get_ident()] = t
        if t == 1:
            sw.sem[1].acquire(timeout=GIVE_UP)
        try:
            if trace:
                sys.settrace(tracer(t))
            out[t] = full(*jobs[t])
        except BaseException as e:        # noqa: B036  - an outcome like any other
            out[t] = [dict(k="other:" + type(e).__name__, v=None, e=[], m="")] * 2
        finally:
            sys.settrace(None)
            sw.end(t)
    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in (0, 1)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(20)
    hang = [dict(k="other:hang", v=None, e=[], m="")] * 2
    return [o if o is not None else hang for o in out]


def count_lines(job, opcodes=False):
    n = [0]

    class C:
        def step(self, t):
            n[0] += 1
    c = C()
    c.ids, c.sem, c.end = {}, [None, threading.Semaphore(1)], lambda t: None
    sw = c
    out = [None]

    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            sw.step(0)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return None
    sys.settrace(glob)
    try:
        out[0] = full(*job)
    finally:
        sys.settrace(None)
    return n[0]


# ------------------------------------------------------------- interleavings of Conc.tla
def replay(arg):
    L, real, k, alone, style = arg
    sw = Switch(k["sched"])
    R = Rec.reopen(dict(nodes=L["nodes"], mode=real["mode"], style=style, late=[], early=style % 2 == 1, tag="",
                        inputs=L["inputs"], types=real["types"]))
    R.env.gate = None
    env = Env(L["nodes"], real["mode"], style, early=style % 2 == 1, gate=sw.step)
    jobs = []
    for c in (k["one"], k["two"]):
        x = L["combos"][c - 1]
        jobs.append((env.p[x["r"]], R.streams[x["i"] - 1], L["km"], x["m"] == "slow", x["mi"], style))
    out = two_threads(sw, jobs, False)
    return [t for t, c in ((0, k["one"]), (1, k["two"])) if out[t] != alone[c - 1]]


# ------------------------------------------------------------------ random pairs of parses
def draw(arg):
    """-> (Rec, jobs) for a random arena: two parses that share parsers and often the stream"""
    seed, it = arg
    rng = random.Random("C19/%s/%d" % (seed, it))
    mode = rng.choice(["char", "char", "lex", "obj"])
    g = Gen(rng, mode, ALPHA, w=dict(recover=5, rwith=7, rwithfn=4, attempt=6, many=10, label=6, delay=5, sepby=5, chainl1=6, chainr1=6,
                                     block=4 if mode == "lex" else 0, aligned=3 if mode == "lex" else 0),
            lv=dict(lit=6, rex=6, purefn=5, sat=30, tok=10, tokins=6 if mode == "lex" else 0), boom=0.1)
    a = g.root(rng.choice([2, 3, 3]))
    roots = [a, a, g.root(2, 0.3) if rng.random() < 0.3 else a]
    roots.append(g.add("seq", a=g.add("maybe", a=a), b=g.add("many", a=g.sym())))
    if len(g.nodes) > 60:
        return None
    style = rng.randint(0, 11)
    early = rng.random() < 0.5
    R = Rec(g.nodes, mode, style, early=early)
    for _ in range(2):
        s = damage(rng, sentence(rng, g.nodes, a, 7), ALPHA, 7, extra=rng.choice(["x", "x", "!"]))
        st, _ = as_stream(rng, mode, s)
        R.add(Seq(st) if mode == "obj" and rng.random() < 0.6 else st)
    kms = {"char": ["plain", "text", "tab"], "lex": ["lex"]}.get(mode, ["plain"])
    specs = []
    for _ in range(2):
        specs.append((rng.choice(roots), rng.choice([1, 1, 2]), rng.choice(kms), rng.random() < 0.7,
                      rng.choice([0, 1, 2, 5, 5, 5])))
    return rng, g, R, specs, mode, style, early


def pair(arg):
    """Interleaves one random pair of parses in several ways -> a session for Trace.tla, with echoes of the outcomes"""
    seed, it, tries, opcodes = arg
    d = draw((seed, it))
    if d is None:
        return None
    rng, g, R, specs, mode, style, early = d
    ids = []
    alone = []
    for r, i, km, slow, mi in specs:
        R2 = Rec(g.nodes, mode, style, early=early)
        R2.streams, R2.inputs = R.streams, R.inputs
        job = (R2.env.p[r], R.streams[i - 1], km, slow, mi, style)
        alone.append(full(*job))
        h = R.parse(r, i, slow, mi, km)
        ids.append([R.unwrap(h), R.unwrap(h, True)] if h else [len(R.ev)] * 2)
    if R.dead:
        return R.session()
    echoes = []

    def echo(t, outs):
        for u in (0, 1):
            if outs[u] != alone[t][u]:
                echoes.append(t)
                R.log("echo", x=[ids[t][u]], o=outs[u], u=bool(u))

    def job(env, t, gate=None):
        r, i, km, slow, mi = specs[t]
        return (env.p[r], R.streams[i - 1], km, slow, mi, style, gate)
    n = count_lines(job(R.env, 0), opcodes)
    runs = 0
    for _ in range(tries):
        env = Env(g.nodes, mode, style, early=early) if rng.random() < 0.5 else R.env
        first = rng.randint(0, n)
        plan = [first, 10 ** 9] if rng.random() < 0.5 else [first, rng.randint(1, n + 1), rng.randint(1, n + 1), rng.randint(1, n + 1), 10 ** 9]
        outs = two_threads(Switch(plan), [job(env, 0), job(env, 1)], True, opcodes)
        runs += 1
        for t in (0, 1):
            echo(t, outs[t])
    # the second parse run from within a callback of the first
    calls = [0]
    box = []

    def gate(at=None):
        calls[0] += 1
        if at is not None and calls[0] == at and not box:
            box.append(None)
            box[0] = full(*job(env, 1))
    try:
        Tok.hook = gate
        env = Env(g.nodes, mode, style, early=early, gate=gate)
        full(*job(env, 0, gate))
        total = calls[0]
        outs = []
        for at in (range(1, total + 1) if total <= tries else rng.sample(range(1, total + 1), tries)):
            calls[0] = 0
            box = []
            Tok.hook = here = lambda: gate(at)
            env = Env(g.nodes, mode, style, early=early, gate=here)
            outs.append((full(*job(env, 0, here)), box))
    finally:
        Tok.hook = None
    for o, box in outs:
        runs += 1
        echo(0, o)
        if box and box[0] is not None:
            echo(1, box[0])
    for e in R.ev:
        e["fl"] = []
    s = R.session()
    s["runs"] = runs
    s["tag"] = "C19/%s/%d" % (seed, it)
    return s


def run(check):
    deep = check.tier == "thorough"
    lib, real = library.library(library.ALL, [("slow", 5), ("fast", 5)], 7 if deep else 5)
    cases, tables, res = explore(check, "Conc.tla", CFG % (3 if deep else 2), lib)
    import isolated
    alone = {}
    off = 0
    for x, L in enumerate(lib):
        for c in range(len(L["combos"])):
            got, how = isolated.run(one_alone, [(L, real[x], c, check.seed % 12)], 60)
            if how:
                check.violation("a parse on its own: the process ended with " + how, {"process"}, dict(lib=L, combo=c))
                return
            alone.setdefault(x, []).append(got[0])
            t = tables[x + 1][c]
            off += not (matches(t["f"], got[0][0]) and matches(t["t"], got[0][1]))
    if len(cases) > 60000:
        cases = random.Random(check.seed).sample(cases, 60000)
    items = [(lib[k["lib"] - 1], real[k["lib"] - 1], k, alone[k["lib"] - 1], check.seed % 12) for k in cases]
    got = check.spread(replay, items, "replay of interleavings", timeout=600)
    check.traces += len(got)
    for it, bad in [(it, b) for it, b in got if b][:10]:
        k = it[2]
        check.violation("interleaving %s of %s %d and %d, parses %s" % (k["sched"], it[0]["name"], k["one"], k["two"], bad),
                        {"interference"}, dict(nodes=it[0]["nodes"], inputs=it[0]["inputs"], text=k, combos=it[0]["combos"]))
    check.parts.append(dict(part="Conc.tla exhaustive", libraries=[L["name"] for L in lib], states=res["distinct"],
                            interleavings_replayed=len(cases), parses_alone_not_as_specified=off))
    check.samples.append(dict(library=lib[cases[0]["lib"] - 1]["name"], interleaving=cases[len(cases) // 2]))

    n, tries = (8000, 60) if deep else (2500, 24)
    got = check.spread(pair, [(check.seed, it, tries, deep and it % 2 == 1) for it in range(n)], "interleaved parses", timeout=700)
    ss = [s for _, s in got if s]
    for _ in check.validate(ss, {"interference"}, "interleaved parses"):
        pass
    check.parts.append(dict(part="threads switched inside library code, and re-entered parses", pairs=len(ss),
                            runs=sum(s.get("runs", 0) for s in ss)))
