"""Runs parsers of the real library and writes down, call by call, what the public API returned or raised.
The result (a session) is validated by spec/Trace.tla."""
import collections
import gc
import signal
import sys

import reparsec
from reparsec import Insert, Loc, ParseError, Skip
from reparsec import lexer as R_lexer
from reparsec import scannerless as R_scan

from build import RAW, Boom, Env, Tok, enc

Z = {"p": 0, "l": 0, "c": 0}
NONE = {"t": "none", "s": "", "n": 0, "c": []}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class Limit:
    """Turns a call that does not come back into an outcome."""
    seconds = 10.0             # of CPU time, so that a busy machine does not matter; waiting: ten times that
    hangs = 0
    room = 1000                # Python stack frames a call may use: the default recursion limit

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        signal.setitimer(signal.ITIMER_REAL, 10 * self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def depth():
    f, n = sys._getframe(1), 0
    while f:
        f, n = f.f_back, n + 1
    return n


def guarded(fn, *args, **kw):
    """-> (kind, value): "ok", or the name of what was raised."""
    try:
        with Limit():
            sys.setrecursionlimit(depth() + Limit.room)
            return "ok", fn(*args, **kw)
    except ParseError as e:
        return "err", e
    except RecursionError:
        return "other:RecursionError", None
    except RuntimeError:
        return "runtime", None
    except Boom:
        return "boom", None
    except Hang:
        Limit.hangs += 1
        return "other:hang", None
    except MemoryError:
        Limit.hangs += 1
        return "other:MemoryError", None
    except Exception as e:
        return "other:" + type(e).__name__, None
    finally:
        sys.setrecursionlimit(10000)


def text(x):
    return x if isinstance(x, str) else "<%s>" % type(x).__name__


def num(x):
    return int(x) if isinstance(x, int) and abs(x) < 2 ** 30 else -7777


def items(e):
    out = []
    for x in e.errors:
        if x.op is None:
            k, n, b = "none", 0, ""
        elif type(x.op) is Skip:
            k, n, b = "skip", num(x.op.count), ""
        elif type(x.op) is Insert:
            k, n, b = "ins", 0, text(x.op.label)
        else:
            k, n, b = "other", 0, ""
        out.append(dict(p=num(x.loc.pos), l=num(x.loc.line), c=num(x.loc.col), s=text(x.loc_str),
                        ex=[text(t) for t in x.expected], k=k, n=n, b=b, m=text(x.msg)))
    return out


def outcome(kind, v):
    if kind == "ok":
        return dict(k="val", v=enc(v), e=[], m="")
    if kind == "err":
        try:
            return dict(k="err", v=NONE, e=items(v), m=str(v))
        except Exception as e:                # an error that cannot be read is no error
            kind = "other:unreadable " + type(e).__name__
    return dict(k=kind, v=NONE, e=[], m="")


# ------------------------------------------------------------- user location functions
def text_get_loc(loc, stream, pos):
    line, col = loc.line, loc.col
    for j in range(loc.pos, pos):
        if stream[j] == "\n":
            line, col = line + 1, 0
        else:
            col += 1
    return Loc(pos, line, col)


def lc(l):
    return "%d:%d" % (l.line + 1, l.col + 1)


def tab_get_loc(loc, stream, pos):
    p, line, col = loc
    while p < pos:
        ch = stream[p]
        if ch == "\n":
            line, col = line + 1, 0
        elif ch == "\t":
            col = (col // 4 + 1) * 4
        else:
            col += 1
        p += 1
    return Loc(p, line, col)


def tab_fmt(l):
    return "L%dC%dP%d" % (l.line, l.col, l.pos)


def abs_get_loc(_, stream, pos):
    return Loc((0 if pos // 2 % 2 else 1000) - 10 * (pos // 2), pos // 3, pos % 3)


def abs_fmt(l):
    return "<%d/%d.%d>" % (l.pos, l.line, l.col)


def lex_get_loc(_, stream, pos):
    if pos < len(stream):
        return stream[pos].start
    if len(stream):
        return stream[len(stream) - 1].end
    return Loc(pos, 0, 0)


class Seq:
    """A user-defined sequence: nothing but len() and integer indexing."""

    reads = None

    def __init__(self, xs):
        self.xs = list(xs)

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        if Tok.hook:
            Tok.hook()
        if self.reads is not None:
            self.reads.append(num(i))
        if not isinstance(i, int) or not 0 <= i < len(self.xs):
            raise IndexError(i)
        return self.xs[i]


class Str(str):
    """A string type of the user's own."""


# ---------------------------------------------------------------------- stream elements
def jloc(l):
    return {"p": num(getattr(l, "pos", None)), "l": num(getattr(l, "line", None)), "c": num(getattr(l, "col", None))}


def elem(x):
    if type(x) is Tok:
        return dict(k=x.k, v=x.v, n=x.n, o=Z, z=Z)
    if type(x) is R_lexer.Token:
        return dict(k=x.kind, v=x.value, n=jloc(x.start)["p"] + 1, o=jloc(x.start), z=jloc(x.end))
    if type(x) is str and x != "":
        return dict(k=x, v=x, n=-1, o=Z, z=Z)
    for code, v in RAW.items():
        if type(v) is type(x) and (v == x or v is x):
            return dict(k="raw", v=code, n=-1, o=Z, z=Z)
    return dict(k="other", v=type(x).__name__, n=-1, o=Z, z=Z)


def unelem(e):
    """JSON element -> Python object (replaying specification cases)."""
    if e["k"] == "raw":
        return RAW[e["v"]]
    if e["n"] == -1:
        return e["v"]
    if e["z"]["p"] > 0 or e["o"]["p"] > 0:
        return R_lexer.Token(e["k"], e["v"], Loc(e["o"]["p"], e["o"]["l"], e["o"]["c"]),
                             Loc(e["z"]["p"], e["z"]["l"], e["z"]["c"]))
    return Tok(e["k"], e["v"], e["n"])


def contents(stream):
    return [elem(stream[j]) for j in range(len(stream))]


EV = dict(e="", r=0, i=1, km="plain", mi=5, m="", h=0, n=0, u=False, fl=[], us=[], lg=False, x=[], st=[],
          o=dict(k="ok", v=NONE, e=[], m=""))


def gated(fn, gate):
    def call(*args):
        gate()
        return fn(*args)
    return call if gate else fn


class Asked:
    """What a parse asks of the location functions and of the stream it was given."""
    own = {"plain": (lambda _, s, p: Loc(p, 0, 0), lambda l: repr(l.pos)), "text": (text_get_loc, lc), "lex": (lex_get_loc, lc),
           "abs": (abs_get_loc, abs_fmt), "tab": (tab_get_loc, tab_fmt)}

    def __init__(self, stream, km):
        self.stream, self.locs, self.fmts, self.reads = stream, [], [], []
        self.get, self.fmt = self.own[km]
        if type(stream) is Seq:
            stream.reads = self.reads

    def get_loc(self, loc, stream, pos):
        v = self.get(loc, stream, pos)
        self.locs.append(dict(s=stream is self.stream and type(loc) is Loc, b=jloc(loc), q=num(pos), o=jloc(v)))
        return v

    def fmt_loc(self, loc):
        self.fmts.append(jloc(loc))
        return self.fmt(loc)


def call_parse(p, stream, km, recover, mi, style, gate=None, ask=None):
    """One parse through the public API, in one of its spellings."""
    if ask:
        return p.parse(stream, recover, max_insertions=mi, get_loc=ask.get_loc, fmt_loc=ask.fmt_loc)
    if km == "plain":
        if mi == 5 and style % 2:
            return p.parse(stream, recover) if style % 4 == 1 else p.parse(stream, recover=recover)
        return p.parse(stream, recover, max_insertions=mi)
    if km == "text":
        if mi == 5 and style % 4 != 3:
            return R_scan.parse(p, stream, recover)
        return p.parse(stream, recover, max_insertions=mi, get_loc=gated(text_get_loc, gate), fmt_loc=gated(lc, gate))
    if km == "lex":
        if mi == 5 and style % 4 != 3:
            return R_lexer.parse(p, stream, recover)
        return p.parse(stream, recover, max_insertions=mi, get_loc=gated(lex_get_loc, gate), fmt_loc=gated(lc, gate))
    if km == "abs":
        return p.parse(stream, recover, max_insertions=mi, get_loc=gated(abs_get_loc, gate), fmt_loc=gated(abs_fmt, gate))
    return p.parse(stream, recover, max_insertions=mi, get_loc=gated(tab_get_loc, gate), fmt_loc=gated(tab_fmt, gate))


class Rec:
    """One session."""
    calls = False              # write down the calls of user functions
    asks = False               # write down what is asked of location functions and streams
    rewrites = None            # nodes -> (nodes and a grammar like it, why): compare the two
    respell = 0                # how the second one is spelled

    def __init__(self, nodes, mode="char", style=0, late=(), early=False, gate=None, tag=""):
        self.twin = None
        if self.rewrites and not late:
            nodes, self.twin = self.rewrites(nodes)
        self.nodes = nodes
        self.style = style
        self.env = Env(nodes, mode, style, late, early, gate,
                       respell=(self.twin[0], self.respell) if self.twin and self.respell else (0, 0))
        self.defd = list(self.env.defd)
        self.inputs = []
        self.streams = []
        self.handles = []
        self.modes = []
        self.ev = []
        self.tag = tag
        self.dead = False
        self.fuel = 5000           # machine steps the specification may take on the session

    def add(self, stream):
        self.streams.append(stream)
        self.inputs.append(contents(stream))
        return len(self.streams)

    def lex(self, sp, tx):
        """Split text tx by specification sp -> number of the input, 0 if it could not be lexed"""
        from lexcheck import call
        text = [dict(v=c) for c in tx]
        o, toks = call(sp, text, raw=True)
        i = self.add(toks) if o["k"] == "tokens" else 0
        self.log("lex", i=i, st=[sp, text], x=[o["loc"][f] for f in "plc"], o=dict(EV["o"], k=o["k"], m=o["m"]))
        return i

    def log(self, e, **kw):
        ev = dict(EV, e=e)
        ev.update(kw)
        self.ev.append(ev)
        return len(self.ev)

    def parse(self, r, i, recover=False, mi=5, km="plain"):
        """-> handle (0 if the parse raised)"""
        stream = self.streams[i - 1]
        self.env.log = []
        self.env.calls = [] if self.calls else None
        self.env.stream = stream
        self.ask = Asked(stream, km) if self.asks else None
        kind, v = guarded(call_parse, self.env.p[r], stream, km, recover, mi, self.style + len(self.ev), None, self.ask)
        if type(stream) is Seq:
            stream.reads = None
        if kind == "err":
            kind = "other:ParseError"
        us, self.env.calls = self.env.calls, None
        if recover and us is not None and not (kind == "ok" and guarded(v.unwrap)[0] == "ok"):
            us = None              # calls are specified for parses that need no repair
        if kind.startswith("other"):
            self.dead = self.dead or kind in ("other:hang", "other:MemoryError")
        self.log("parse", r=r, i=i, km=km, mi=mi, m="slow" if recover else "fast",
                 fl=sorted(set(self.env.log)), us=us or [], lg=us is not None, o=dict(EV["o"], k=kind))
        self.env.stream = None
        self.handles.append(v if kind == "ok" else None)
        self.modes.append("slow" if recover else "fast")
        return len(self.handles) if kind == "ok" else 0

    def unwrap(self, h, u=False, keep=None):
        kind, v = guarded(self.handles[h - 1].unwrap, recover=u) if u or self.style % 2 else \
            guarded(self.handles[h - 1].unwrap)
        n = self.log("unwrap", h=h, u=u, m=self.modes[h - 1], o=outcome(kind, v))
        if keep is not None:
            keep.append((kind, v))
        return n

    def rfmap(self, h, n):
        from build import V
        kind, v = guarded(self.handles[h - 1].fmap, lambda x: V("f", "", n, (x,)))
        self.log("rfmap", h=h, n=n, o=dict(EV["o"], k=kind))
        self.handles.append(v if kind == "ok" else None)
        self.modes.append(self.modes[h - 1])
        return len(self.handles) if kind == "ok" else 0

    def define(self, d, target):
        kind, _ = guarded(self.env.define, d, target)
        self.log("define", r=d, h=target, o=dict(EV["o"], k=kind))

    def stream(self, i):
        self.log("stream", i=i, st=contents(self.streams[i - 1]))

    def both(self, r, i, mi=5, km="plain", sound=True):
        """The standard battery: plain parse, recovering parse, their relation, soundness of the repairs."""
        if self.twin:
            return self.law(*self.twin, r, r + self.twin[0], i, mi, km)
        return self.battery(r, i, mi, km, sound)

    def battery(self, r, i, mi=5, km="plain", sound=True):
        ids = []
        for rec, us in ((False, (False,)), (True, (False, True))):
            if self.dead:
                return
            h = self.parse(r, i, rec, mi, km)
            at, ask = len(self.ev), self.ask
            for u in us:
                ids.append(self.unwrap(h, u) if h else len(self.ev))
            if ask:
                self.log("asked", x=[at], i=i, st=[ask.locs, ask.reads, ask.fmts])
        if len(ids) == 3:
            self.log("relate", x=ids)
            if sound:
                self.log("sound", x=ids[1:], r=r, i=i, km=km, mi=mi)
        return ids

    def law(self, size, ws, r1, r2, i, mi=5, km="plain"):
        """The parsers r1 and r2, alike by the laws ws, on the same input."""
        a = self.battery(r1, i, mi, km, False)
        b = self.battery(r2, i, mi, km, False)
        if a and b:
            self.log("law", r=size, st=ws, x=[x for ab in zip(a, b) for x in ab])

    @staticmethod
    def reopen(s):
        """A fresh recorder over the parsers and streams of a recorded session."""
        R = Rec(s["nodes"], s["mode"], s["style"], s["late"], s["early"], tag=s["tag"])
        make = {"str": "".join, "Str": lambda xs: Str("".join(xs)), "tuple": tuple, "Seq": Seq, "bytes": bytes,
                "deque": collections.deque}
        for xs, t in zip(s["inputs"], s["types"]):
            R.add(make.get(t, list)([unelem(e) for e in xs]))
        return R

    def session(self):
        return dict(nodes=self.nodes, inputs=self.inputs, defd=self.defd, ev=self.ev, tag=self.tag, fuel=self.fuel,
                    style=self.style, mode=self.env.mode, late=sorted(self.env.late), early=self.env.early,
                    types=[type(s).__name__ for s in self.streams])
