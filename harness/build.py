"""Grammar AST (the JSON node arena shared with the TLA+ specification) -> real reparsec parsers.

Only the public API of reparsec is used.  Every node is a dict with the fields
  k   kind
  a,b,c  child node numbers (1-based, 0 = none);  ks  list of child node numbers
  s,v  token kind / token value;  l  label;  n  integer parameter;  ts  list of strings
"""
import re

import reparsec
from reparsec import Delay, Loc
from reparsec import layout as R_layout
from reparsec import lexer as R_lexer
from reparsec import primitive as R_prim
from reparsec import scannerless as R_scan
from reparsec import sequence as R_seq

FIELDS = dict(k="", a=0, b=0, c=0, ks=(), s="", v="", l="", n=0, ts=())


def node(k, **kw):
    d = dict(FIELDS)
    d["ks"] = []
    d["ts"] = []
    d["k"] = k
    for key, val in kw.items():
        assert key in d, key
        d[key] = val
    return d


class V:
    """Opaque user value: what the callbacks given to reparsec return."""
    __slots__ = ("t", "s", "n", "c", "g")

    def __init__(self, t, s="", n=0, c=(), g=None):
        self.t, self.s, self.n, self.c, self.g = t, s, n, c, g

    def __call__(self, *args):           # values double as chain operators
        r = V("hv", "", (3 * check(args[0]) + 5 * check(args[1]) + self.n) % 10007) if self.t == "hop" else \
            raw(self.s) if self.t == "rop" else V("op", "", 0, (self,) + args)
        if self.g:
            self.g(r)
        return r

    def __repr__(self):
        return self.s if self.s else "V%d" % self.n

    def __str__(self):
        return "value " + repr(self)


def check(v):
    return v.n if type(v) is V and v.t == "hv" else {"a": 1, "b": 2}.get(v, 7) if type(v) is str else 7


class Tok:
    """User-defined stream element: equality looks at kind and value only, n is a payload."""
    __slots__ = ("k", "v", "n")

    def __init__(self, k, v, n=0):
        self.k, self.v, self.n = k, v, n

    hook = None                          # called whenever elements are compared or looked at

    def __eq__(self, other):
        if Tok.hook:
            Tok.hook()
        return ["yes"] if isinstance(other, Tok) and (self.k, self.v) == (other.k, other.v) else []

    def __hash__(self):
        return hash((self.k, self.v))

    def __repr__(self):
        return "<%s:%s>" % (self.k, self.v)

    def __str__(self):
        return self.v


def enc(v, d=0):
    """Value -> uniform tree {t,s,n,c} (the value domain of the specification)."""
    if d > 100:
        return {"t": "other:deep", "s": "", "n": 0, "c": []}
    d += 1
    if v is None:
        return {"t": "none", "s": "", "n": 0, "c": []}
    if type(v) is str:
        return {"t": "tok", "s": v, "n": 0, "c": []}
    if type(v) is int:
        return {"t": "int", "s": "", "n": v, "c": []}
    if type(v) is bool:
        return {"t": "bool", "s": "", "n": int(v), "c": []}
    if type(v) is float:
        return {"t": "float", "s": repr(v), "n": 0, "c": []}
    if type(v) is Tok:
        return {"t": "obj", "s": v.k + ":" + v.v, "n": v.n, "c": []}
    if type(v) is R_lexer.Token:
        if any(type(x) is not Loc or any(type(n) is not int for n in x) for x in (v.start, v.end)) or type(v.kind) is not str or type(v.value) is not str:
            return {"t": "other", "s": "token", "n": 0, "c": []}
        return {"t": "obj", "s": v.kind + ":" + v.value, "n": v.start.pos + 1,
                "c": [{"t": "at", "s": "%s:%s-%s:%s:%s" % (v.start.line, v.start.col, v.end.pos, v.end.line, v.end.col), "n": 0, "c": []}]}
    if type(v) is V:
        return {"t": v.t, "s": v.s, "n": v.n, "c": [enc(x, d) for x in v.c]}
    if type(v) is list:
        return {"t": "list", "s": "", "n": 0, "c": [enc(x, d) for x in v]}
    if type(v) is tuple:
        return {"t": "tup", "s": "", "n": 0, "c": [enc(x, d) for x in v]}
    return {"t": "other:" + type(v).__name__, "s": "", "n": 0, "c": []}


RAW = {"none": None, "i0": 0, "i1": 1, "i7": 7, "false": False, "true": True, "es": "", "et": (), "t2": ("a", "b"), "nan": float("nan"), "sx": "it's",
       "ls": "some text that is rather longer than what most values are, 0123456789", "lt": tuple(range(12)), "ul": ["a"]}


def raw(code):
    return [] if code == "el" else RAW[code]


class Boom(Exception):
    """Raised by user callbacks of the test grammars."""


LETTERS = ["a", "b", "c", "A", "x", "z", "\u00e9", "\u4e2d"]
DIGITS = ["0", "1", "7", "\u0663", "\u00b2"]
OTHERS = ["-", " ", "\n", "\t", "_", "!"]


def key(e):
    """Leftmost token of an encoded value: what bind callbacks dispatch on."""
    while True:
        if e["t"] in ("tok", "obj"):
            return e["s"]
        if not e["c"]:
            return e["t"]
        e = e["c"][0]


def ident(x):
    return x


class Env:
    """Parsers built from an arena, plus the log of user-callback activity.

    mode   type of the stream elements: char | obj | lex | raw
    style  which of the equivalent public spellings to use
    late   Delay nodes left undefined until an explicit define event
    early  define each Delay as soon as its parser exists (users built later see it defined)
    gate   called from every user callback (schedule driver)
    """

    def __init__(self, nodes, mode="char", style=0, late=(), early=False, gate=None, roots=None, respell=(0, 0)):
        self.nodes = nodes
        self.respell = respell    # (n, d): the nodes after the first n are those spelled another way
        self.mode = mode
        self.style = style
        self.p = {}
        self.log = []             # recover_with_fn callback activity
        self.stream = None        # what the running parse was given
        self.late = set(late)
        self.early = early
        self.gate = gate or (lambda: None)
        self.calls = None         # all calls of user functions, when they are written down
        self.defd = []
        self.pending = []
        for i in (roots or range(1, len(nodes) + 1)):
            self.get(i)
        self.flush()

    def called(self, i, *args):
        if self.calls is not None:
            self.calls.append(dict(n=i, v=enc(args[0] if args else None)))
        self.gate()

    def applied(self, r):
        self.called(0, r)

    def flush(self):
        while self.pending:
            self.auto(self.pending.pop())

    def auto(self, i):
        if i not in self.late and self.nodes[i - 1]["a"]:
            self.define(i, self.nodes[i - 1]["a"])

    def define(self, i, target):
        self.p[i].define(self.get(target))
        self.defd.append([i, target])

    def get(self, i):
        if i not in self.p:
            nd = self.nodes[i - 1]
            if nd["k"] == "delay":
                self.p[i] = Delay()
                if self.early:
                    self.auto(i)
                else:
                    self.pending.append(i)
            else:
                self.p[i] = self.make(i, nd)
        return self.p[i]

    def tokval(self, nd):
        if nd["s"] == "raw":
            return raw(nd["v"])
        if self.mode in ("char", "raw"):
            return nd["v"]
        if self.mode == "obj":
            return Tok(nd["s"], nd["v"], 0)
        return R_lexer.Token(nd["s"], nd["v"])

    def text(self, x):
        if self.mode == "char":
            return x
        if self.mode == "obj":
            return x.v
        if self.mode == "lex":
            return x.value
        for code, v in RAW.items():
            if type(v) is type(x) and (v == x or v is x):
                return code
        return x

    def make(self, i, nd):
        k, st = nd["k"], self.style + i
        n, d = self.respell
        if n and i > n:
            st += d - n
        g = self.get
        called = self.called
        if k == "sym":
            t = self.tokval(nd)
            if nd["l"] == repr(t) and st % 2:
                return R_seq.sym(t)
            return R_seq.sym(t, nd["l"])
        if k == "sat":
            cls = set(nd["ts"])
            boom = nd["n"] == 1

            def test(x):
                called(i, x)
                c = self.text(x)
                if boom and c == "!":
                    raise Boom()
                ok = c in cls
                if st % 3 == 0:              # predicates need not return a bool
                    return [c] if ok else []
                return ok
            return R_seq.satisfy(test)
        if k == "tok":
            if self.mode == "lex":
                return R_lexer.token(nd["s"])
            kd = nd["s"]

            def tkind(x):
                called(i, x)
                return x.k == kd
            return R_seq.satisfy(tkind).label(kd)
        if k == "tokins":
            return R_lexer.token_ins(nd["s"], nd["v"])
        if k == "letter":
            return R_seq.letter
        if k == "digit":
            return R_seq.digit
        if k == "eof":
            return R_seq.eof()
        if k == "pure":
            return R_prim.Pure(raw(nd["s"]) if nd["s"] else V("pure", "", nd["n"]))
        if k == "purefn":
            def pfn():
                called(i)
                return raw(nd["s"]) if nd["s"] else V("pure", "", nd["n"])
            return R_prim.PureFn(pfn)
        if k == "purelist":
            def lfn():
                called(i)
                return []
            return R_prim.PureFn(lfn)
        if k == "unexp":
            return R_prim.unexpected(nd["l"])
        if k == "lit":
            return R_scan.literal("".join(nd["ts"]))
        if k == "rex":
            cls = "[" + "".join(re.escape(x) for x in nd["ts"]) + "]"
            sep = re.escape(nd["v"])
            f = nd["s"]
            if f == "one":
                return R_scan.regexp(cls)
            if f == "star":
                return R_scan.regexp(cls + "*")
            if f == "plus":
                return [R_scan.regexp(cls + "+"), R_scan.regexp("(?P<g>" + cls + "+)", "g"),
                        R_scan.regexp("(" + cls + "+)", 1)][st % 3]
            if f == "opt":      # value is the optional group: no value -> no match
                return R_scan.regexp("(" + cls + ")?" + sep, 1)
            if f == "pre":      # value is the group, which may be empty though the match is not
                return (R_scan.regexp(cls + "+(" + sep + "?)", 1) if st % 2 else
                        R_scan.regexp(cls + "+(?P<v>" + sep + "?)", "v"))
            if f == "either":   # a class character, or else the other character
                return R_scan.regexp(cls + "|" + sep)
            if f == "side":     # only one side of the alternation is the group
                return R_scan.regexp(sep + "|(" + cls + ")", 1)
            if f == "trail":    # value is the group, trailing separator characters are consumed
                return (R_scan.regexp("(" + cls + "+)" + sep + "*", 1) if st % 2 else
                        R_scan.regexp("(?P<v>" + cls + "+)" + sep + "*", "v"))
            if f == "all":      # the same expression, but its value is everything it matched
                return R_scan.regexp(("(" if st % 2 else "(?P<v>") + cls + "+)" + sep + "*")
            if f == "after":    # only after the character v
                return R_scan.regexp("(?<=" + sep + ")" + cls + "+")
            if f == "ahead":    # only in front of the character v
                return R_scan.regexp(cls + "+(?=" + sep + ")")
            if f == "bol":      # only at the start of a line
                return R_scan.regexp("(?m:^)" + cls + "+")
            if f == "bof":      # only at the start of the text
                return R_scan.regexp("^" + cls + "+")
            if f == "eol":      # only at the end of the text, or before a line end there
                return R_scan.regexp(cls + "+$")
            if f == "rest":     # the rest of the line
                return R_scan.regexp(".+")
            raise ValueError(f)
        m = st % 3
        if k == "fmap":
            def mfn(x, n=nd["n"]):
                called(i, x)
                if nd["s"] == "boom" and key(enc(x)) == nd["v"]:
                    raise Boom()
                if nd["s"] == "raw":
                    return raw(nd["v"])
                if nd["s"] == "rop":
                    return V("rop", nd["v"], n, (), self.applied)
                if nd["s"] in ("fst", "snd"):
                    return x[nd["s"] == "snd"]
                if nd["s"] == "cons":
                    return [] if x is None else [x[0]] + x[1]
                return V("hop", "", n + check(x), (), self.applied) if nd["s"] == "hop" else V("f", "", n, (x,), self.applied)
            return g(nd["a"]).fmap(mfn) if st % 2 else reparsec.fmap(g(nd["a"]), mfn)
        if k == "bind":
            tbl = dict(zip(nd["ts"], nd["ks"]))

            def bfn(x):
                called(i, x)
                return self.get(tbl.get(key(enc(x)), nd["b"]))
            for j in list(nd["ks"]) + [nd["b"]]:
                g(j)
            return g(nd["a"]).bind(bfn) if st % 2 else reparsec.bind(g(nd["a"]), bfn)
        if k in ("maybe", "many", "attempt", "recover"):
            if st % 2:
                return getattr(g(nd["a"]), k)()
            return getattr(reparsec, k)(g(nd["a"]))
        if k == "label":
            return g(nd["a"]).label(nd["l"]) if st % 2 else reparsec.label(g(nd["a"]), nd["l"])
        if k == "rwith":
            x = raw(nd["v"]) if nd["v"] else V("ins", nd["s"], nd["n"])
            if repr(x) == nd["l"]:
                return g(nd["a"]).recover_with(x) if st % 2 else reparsec.recover_with(g(nd["a"]), x)
            if st % 2:
                return g(nd["a"]).recover_with(x, nd["l"])
            return reparsec.recover_with(g(nd["a"]), x, nd["l"])
        if k == "rwithfn":
            def rfn(stream, pos, n=nd["n"], s=nd["s"]):
                called(i, pos)
                self.log.append(n * 1000 + pos if stream is self.stream or self.stream is None else -1)
                if nd["v"]:
                    return raw(nd["v"])
                return V("ins", "@%d" % pos if s == "@" else s, n * 1000 + pos, (stream[pos] if pos < len(stream) else None,))
            if nd["v"] and repr(raw(nd["v"])) == nd["l"] or not nd["v"] and nd["s"] and nd["s"] == nd["l"]:
                return g(nd["a"]).recover_with_fn(rfn) if st % 2 else reparsec.recover_with_fn(g(nd["a"]), rfn)
            if st % 2:
                return g(nd["a"]).recover_with_fn(rfn, nd["l"])
            return reparsec.recover_with_fn(g(nd["a"]), rfn, nd["l"])
        if k == "block":
            return R_layout.block(g(nd["a"]))
        if k == "aligned":
            return R_layout.aligned(g(nd["a"]))
        if k == "indented":
            return R_layout.indented(nd["n"], g(nd["a"]))
        if k == "seq":
            return g(nd["a"]) + g(nd["b"]) if st % 2 else reparsec.seq(g(nd["a"]), g(nd["b"]))
        if k in ("seql", "seqr"):
            if m == 0:
                return getattr(reparsec, k)(g(nd["a"]), g(nd["b"]))
            if m == 1:
                return getattr(g(nd["a"]), k)(g(nd["b"]))
            return g(nd["a"]) << g(nd["b"]) if k == "seql" else g(nd["a"]) >> g(nd["b"])
        if k == "alt":
            return g(nd["a"]) | g(nd["b"]) if st % 2 else reparsec.alt(g(nd["a"]), g(nd["b"]))
        if k == "sepby":
            return g(nd["a"]).sep_by(g(nd["b"])) if st % 2 else reparsec.sep_by(g(nd["a"]), g(nd["b"]))
        if k in ("chainl1", "chainr1"):
            if st % 2:
                return getattr(g(nd["a"]), k)(g(nd["b"]))
            return getattr(reparsec, k)(g(nd["a"]), g(nd["b"]))
        if k == "between":            # a = open, b = close, c = body
            if st % 2:
                return g(nd["c"]).between(g(nd["a"]), g(nd["b"]))
            return reparsec.between(g(nd["a"]), g(nd["b"]), g(nd["c"]))
        if k == "then":               # starts a flat tuple
            p = g(nd["a"])
            if isinstance(p, TUPLES):
                p = p.fmap(ident)
            return p.then(g(nd["b"]))
        if k == "thenN":              # extends the flat tuple a
            return g(nd["a"]).then(g(nd["b"]))
        if k == "apply":
            def afn(*args):
                called(i, args)
                return V("ap", "", nd["n"], args)
            return g(nd["a"]).apply(afn)
        raise ValueError(k)


TUPLES = (reparsec.Tuple2, reparsec.Tuple3, reparsec.Tuple4, reparsec.Tuple5,
          reparsec.Tuple6, reparsec.Tuple7, reparsec.Tuple8)
