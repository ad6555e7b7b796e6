"""Rewritings of grammars by the laws of spec/Laws.tla (which checks that they are what the laws say)."""
from models import LAWS, WRAP, moved

NIL = dict(k="", a=0, b=0, c=0, ks=[], ts=[], s="", v="", l="", n=0)
PURE = dict(NIL, k="pure", s="none")
PLURAL = ("seq", "then", "thenN")



def un(k, a, **kw):
    return dict(NIL, k=k, a=a, **kw)


def bi(k, a, b):
    return dict(NIL, k=k, a=a, b=b)


def rewritten(g, w, j):
    """Arena g (a list) with node j rewritten by law w, or None if it does not apply."""
    nd = g[j - 1]
    A = g[nd["a"] - 1] if nd["a"] else NIL
    B = g[nd["b"] - 1] if nd["b"] else NIL
    k, ka, kb, a, b = nd["k"], A["k"], B["k"], nd["a"], nd["b"]
    e = len(g) + 1
    LR = ("seql", "seqr")
    total = k == "fmap" and nd["s"] != "boom"
    new = more = None
    if w == "altassoc" and k == ka == "alt":
        new, more = bi("alt", A["a"], e), [bi("alt", A["b"], b)]
    elif w == "altcossa" and k == kb == "alt":
        new, more = bi("alt", e, B["b"]), [bi("alt", a, B["a"])]
    elif w == "seqassoc" and k in LR and ka in LR:
        new = bi("seql" if ka == k == "seql" else "seqr", A["a"], e)
        more = [bi(k, A["b"], b)]
    elif w == "seqcossa" and k in LR and kb in LR:
        new = bi("seqr" if k == kb == "seqr" else "seql", e, B["b"])
        more = [bi(k, a, B["a"])]
    elif w == "twice" and k in ("attempt", "maybe", "recover", "block"):
        new, more = dict(nd, a=e), [nd]
    elif w == "relabel" and k == "label":
        new, more = dict(nd, a=e), [dict(nd, l="other")]
    elif w == "purefirst" and k not in PLURAL:
        new, more = bi("seqr", e, e + 1), [PURE, nd]
    elif w == "purelast" and k not in PLURAL:
        new, more = bi("seql", e, e + 1), [nd, PURE]
    elif w == "bindpure" and k not in PLURAL:
        new, more = bi("bind", e, e + 1), [PURE, nd]
    elif w == "delay" and k not in PLURAL:
        new, more = un("delay", e, n=2), [nd]
    elif w == "maybealt" and k == "maybe":
        new, more = bi("alt", a, e), [PURE]
    elif w == "betweendef" and k == "between":
        new, more = bi("seqr", a, e), [bi("seql", nd["c"], b)]
    elif w == "sepbydef" and k == "sepby":
        new = un("fmap", e, s="cons")
        more = [un("maybe", e + 1), bi("seq", a, e + 2), un("many", e + 3), bi("seqr", b, a)]
    elif w == "manydef" and k == "many":
        new, more = un("fmap", e, s="cons"), [un("maybe", e + 1), bi("seq", a, e + 2), un("many", a)]
    elif w == "fmapalt" and total and ka == "alt":
        new, more = bi("alt", e, e + 1), [dict(nd, a=A["a"]), dict(nd, a=A["b"])]
    elif w == "fmapseq" and total and ka == "seql":
        new, more = bi("seql", e, A["b"]), [dict(nd, a=A["a"])]
    elif w == "fmapseq" and total and ka == "seqr":
        new, more = bi("seqr", A["a"], e), [dict(nd, a=A["b"])]
    elif w == "fmapswap" and total and ka in ("label", "attempt", "recover", "block", "aligned", "indented"):
        new, more = dict(A, a=e), [dict(nd, a=A["a"])]
    elif w == "blockaligned" and k == "block":
        new, more = dict(nd, a=e), [un("aligned", a)]
    elif w == "blockindented" and k == "block":
        new, more = dict(nd, a=e), [un("indented", a)]
    elif w == "pick" and k in LR:
        new, more = un("fmap", e, s="fst" if k == "seql" else "snd"), [bi("seq", a, b)]
    elif w == "bindseq" and k == "seqr":
        new, more = bi("bind", a, b), []
    if new is None:
        return None
    return g[:j - 1] + [new] + g[j:] + [dict(x) for x in more]


def rewrite(rng, g, most):
    """-> (rewritten arena, [[law, node], ...])"""
    ws = []
    for _ in range(rng.randint(1, most)):
        can = [(w, j) for w in LAWS for j in range(1, len(g) + 1) if rewritten(g, w, j) is not None]
        light = [x for x in can if x[0] not in WRAP]
        if not can:
            break
        names = sorted({w for w, _ in (light if light and rng.random() < 0.75 else can)})
        w = rng.choice(names)
        j = rng.choice([j for x, j in can if x == w])
        g = rewritten(g, w, j)
        ws.append([w, j])
    return g, ws
