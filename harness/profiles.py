"""What to run for each property: grammar and input profiles.  Each profile yields recorded sessions."""
import collections
import random

import fixed
from laws import moved, rewrite
from build import RAW, Tok
from gen import ALPHA, Gen, damage, sentence
from record import Limit, Loc, R_lexer, Rec, Seq, Str

TEXTS = [["a", "b", "\n"], ["a", "b", " ", "\n"], ["a", "\t", "\n", "b"], ["a", "\r", "\n", "b"],
         ["a", "\u2028", "\n"], ["a", "\x0b", "\x0c", "\n"]]


def tokens(rng, s, width=1):
    """Tokens at plausible places: gaps, line breaks, tokens that span lines."""
    o, p, l, c = [], 0, 0, 0
    for ch in s:
        w = rng.choice([0, 0, 0, 1, 2, 3, -1, -1, -2])
        if w < 0:
            p, l, c = p - w, l + 1, rng.choice([0, 0, 1, 2])
            p += c
        else:
            p, c = p + w, c + w
        n = rng.choice([1, 1, 1, 2, 4])
        st = Loc(p, l, c)
        if rng.random() < 0.1:
            p, l, c = p + n + 1, l + 1, rng.randint(0, 2)
        else:
            p, c = p + n, c + n
        o.append(R_lexer.Token("k" + ch, ch, st, Loc(p, l, c)))
    return o


def lines(rng, ls):
    """Tokens from (token, column) lines."""
    o, p = [], 0
    for j, (ch, col) in enumerate(ls):
        if rng.random() < 0.12:
            col = max(0, col + rng.choice([-1, 1, 2]))
        p += col
        o.append(R_lexer.Token("k" + ch, ch, Loc(p, j, col), Loc(p + 1, j, col + 1)))
        p += 2
    return o


def as_stream(rng, mode, s, plain_ok=True):
    """-> (stream, km choices)"""
    if mode == "char":
        return "".join(s) if rng.random() < 0.95 else Str("".join(s)), ["plain", "text", "tab", "abs"]
    if mode == "obj":
        xs = [Tok("k" + c, c, i + 5) for i, c in enumerate(s)]
        return Seq(xs) if Rec.asks else xs, ["plain", "plain", "abs"]
    if mode == "lex":
        return tokens(rng, s), ["lex"]
    xs = [RAW[x] if x in RAW else x for x in s]
    if xs and all(type(x) is int for x in xs) and rng.random() < 0.5:
        return bytes(xs), ["plain", "abs"]
    return (Seq if Rec.asks else rng.choice([list, tuple, Seq, collections.deque]))(xs), ["plain", "plain", "abs"]


RAWALPHA = [["i0", "none", "a"], ["es", "et", "i7"], ["i0", "i1", "t2"], ["false", "none", "a"], ["i0", "false", "a"],
            ["i1", "true", "i0"], ["nan", "i0", "a"], ["nan", "i1"], ["false", "i0", "true"], ["ab", "a", "b"], ["i0", "i1", "i7"],
            ["ul", "a", "i0"], ["lt", "a", "et"], ["ul", "none", "et"]]


def twin(rng, most):
    """Grammars followed by the same grammar rewritten by some laws."""
    def both(nodes):
        g, ws = rewrite(rng, nodes, most)
        return (nodes + moved(g, len(nodes)), (len(nodes), ws)) if ws else (nodes, None)
    return both


def sess(rng, tag, modes=("char", "char", "obj", "lex"), alpha=None, w=None, lv=None, depth=(2, 3, 4), nin=4,
         maxlen=9, mis=(0, 1, 2, 5, 5), kms=None, rooted=None, dmg=None, gopts=None, eof=0.6, extra="x", hook=None,
         sound=True, rawalpha=RAWALPHA):
    mode = rng.choice(modes)
    gopts = dict(boom=0.03, **(gopts or {})) if not (gopts and "boom" in gopts) else gopts
    extra = rng.choice([extra, extra, "!"]) if extra else extra
    al = rng.choice(rawalpha) if mode == "raw" else list(rng.choice(alpha) if alpha else ALPHA)
    if mode in ("obj", "lex") and alpha:
        al = ["a", "b", "c"]
    lvs = dict(lv or {})
    if mode == "lex":
        lvs.setdefault("tok", 25)
        lvs.setdefault("tokins", 8)
    if mode == "obj":
        lvs.setdefault("tok", 10)
    g = Gen(rng, mode, al, w=w, lv=lvs, **(gopts or {}))
    root = g.rooted(rng.choice(rooted), rng.choice(depth), eof) if rooted else g.root(rng.choice(depth), eof)
    if len(g.nodes) > 70:
        return None
    R = Rec(g.nodes, mode, rng.randint(0, 11), early=rng.random() < 0.4, tag=tag)
    for _ in range(nin):
        s = sentence(rng, g.nodes, root, maxlen)
        s = damage(rng, s, al, maxlen, n=dmg(rng) if dmg else None, extra=None if mode == "raw" else extra)
        stream, ks = as_stream(rng, mode, s)
        if mode == "char" and rng.random() < 0.1 and not any(n["k"] in ("lit", "rex") for n in g.nodes):
            stream = (Seq if Rec.asks else rng.choice([list, tuple, Seq, collections.deque]))(stream)
            ks = ["plain", "abs"]
        ks = [k for k in ks if k in kms] or ks if kms else ks
        i = R.add(stream)
        if hook:
            hook(rng, R, root, i, rng.choice(mis), rng.choice(ks))
        else:
            R.both(root, i, rng.choice(mis), rng.choice(ks), sound)
    return R.session()


def fixed_text(rng, tag, nin=4, which=None, dmg=None, mis=(0, 1, 2, 5, 5), kms=("plain", "text", "tab"), maxlen=24,
               hook=None, sound=True):
    g, root, gen, pool = rng.choice(which or fixed.TEXT)(rng)
    R = Rec(g.nodes, "char", rng.randint(0, 11), early=rng.random() < 0.4, tag=tag)
    for _ in range(nin):
        s = damage(rng, list(gen()), pool, maxlen, n=dmg(rng) if dmg else rng.choice([0, 0, 1, 1, 2, 3]))
        i = R.add("".join(s))
        (hook or (lambda r, R, ro, i, mi, km: R.both(ro, i, mi, km, sound)))(rng, R, root, i, rng.choice(mis),
                                                                        rng.choice(kms))
    return R.session()


def fixed_layout(rng, tag, nin=4, mis=(0, 1, 2, 5)):
    g, root, gen, pool = fixed.offside(rng)
    R = Rec(g.nodes, "lex", rng.randint(0, 11), early=rng.random() < 0.4, tag=tag)
    for _ in range(nin):
        ls = gen()
        for _ in range(rng.choice([0, 0, 1, 2])):
            x = rng.random()
            j = rng.randrange(len(ls)) if ls else 0
            if x < 0.4 and ls:
                ls.pop(j)
            else:
                ls.insert(j, (rng.choice(pool + ["x"]), rng.choice([0, 1, 2])))
        i = R.add(lines(rng, ls[:10]))
        R.both(root, i, rng.choice(mis), "lex")
    return R.session()


# --------------------------------------------------------------------------- per property
def few(rng):
    return rng.choice([0, 0, 0, 1, 1, 2])


def some(rng):
    return rng.choice([1, 1, 2, 2, 3])


def p01(rng, tag):
    x = rng.random()
    w = dict(attempt=10, alt=30, maybe=12, many=8)
    if x < 0.75:
        return sess(rng, tag, w=w, rooted=["alt", "alt", "maybe", "attempt", "many"], dmg=few,
                    lv=dict(lit=10, rex=6))
    if x < 0.9:
        return sess(rng, tag, w=w, depth=(4, 5), dmg=few)
    return fixed_text(rng, tag, dmg=few)


def p02(rng, tag):
    w = dict(tup=12, apply=10, between=8, bind=8, seq=20, seql=10, seqr=10, fmap=8, maybe=8)
    if rng.random() < 0.12:           # callbacks told apart by values that are equal but not the same
        return sess(rng, tag, modes=("raw",), w=dict(w, bind=60, many=25, fmap=12), dmg=few, depth=(2, 3, 4), nin=6,
                    rooted=["bind", "many", "bind", "seq"], lv=dict(sat=60, sym=20, pure=40, purefn=10), maxlen=7,
                    rawalpha=RAWALPHA[4:7])
    if rng.random() < 0.85:
        return sess(rng, tag, modes=("char", "char", "obj", "lex", "raw"), w=w, dmg=few,
                    rooted=["seq", "seql", "seqr", "tup", "apply", "between", "bind", "fmap", "tup", "apply"],
                    lv=dict(pure=16, purefn=10, purelist=5, lit=8, rex=8), gopts=dict(rawpure=0.5), maxlen=12)
    return fixed_text(rng, tag, dmg=few)


def p03(rng, tag):
    w = dict(many=20, sepby=16, chainl1=14, chainr1=14, between=6)
    x = rng.random()
    if is_huge(tag):
        return huge(rng, tag)
    if rng.random() < 0.1:
        return gaps(rng, tag)
    if x < 0.7:
        return sess(rng, tag, modes=("char", "char", "obj", "lex", "raw"), gopts=dict(rawpure=0.4), w=w,
                    rooted=["many", "sepby", "chainl1", "chainr1"], dmg=few, maxlen=14, depth=(1, 2, 3),
                    lv=dict(lit=8, rex=8))
    if x < 0.85:
        return fixed_text(rng, tag, which=[fixed.expr, fixed.json_like, fixed.stmts], dmg=few, maxlen=40)
    return long_lists(rng, tag)


def long_lists(rng, tag, top=70):
    g = fixed.G()
    a = g.alt(g.sym("a"), g.label(g.sat("b"), "B"))
    if rng.random() < 0.3:
        a = g.seq(a, g.un("maybe", g.sym("c")))
    k = rng.choice(["many", "sepby", "chainl1", "chainr1"])
    if k == "many":
        root = g.un("many", a)
    else:
        s = g.sym(",")
        root = g.bin(k, a, s if k == "sepby" else g.fmap(s))
    if rng.random() < 0.7:
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, "char", rng.randint(0, 11), tag=tag)
    for n in (rng.randint(10, top), rng.randint(5, 25)):
        it = [rng.choice("ab") for _ in range(n)]
        s = ("" if k == "many" else ",").join(it)
        if rng.random() < 0.4:
            s = "".join(damage(rng, list(s), ["a", ","], 10 ** 6, n=1))
        R.both(root, R.add(s), rng.choice([1, 5]), rng.choice(["plain", "text"]), sound=False)
    return R.session()


def wide(rng, tag, clean=False, hook=None):
    """A choice among many alternatives: long expected lists, many candidates for repair."""
    mode = rng.choice(["char", "char", "obj", "lex"])
    pool = [chr(97 + j) for j in range(16)]
    g = fixed.G(mode)
    n = rng.choice([3, 6, 10, 15, 19, 24])
    form = rng.random() < 0.5

    def branch(j):
        v = pool[j % rng.choice([4, 16])]
        i, out = g.sym(v), [v]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            w = rng.choice(pool[:6])
            e = g.sym(w)
            if rng.random() < 0.3:
                e = g.un("recover", e) if rng.random() < 0.5 else g.rwith(e)
            i, out = g.seq(i, e), out + [w]
        x = rng.random()
        if x < 0.15:
            i = g.un("recover", i)
        elif x < 0.3:
            i = g.rwith(i)
        elif x < 0.4:
            i = g.rwithfn(i)
        elif x < 0.5:
            i = g.label(i, "L%d" % j)
        elif x < 0.65:
            i = g.un("attempt", i)
        return i, out

    def tied(j):                      # equally expensive repairs that get differently far
        i = g.sym(pool[15 - j % 3])
        i = g.rwith(i) if rng.random() < 0.8 else g.rwithfn(i)
        out = [rng.choice(pool[:9]) for _ in range(rng.choice([0, 1, 1, 2]))]
        for w in out:
            i = g.seq(i, g.un("maybe", g.sym(w)) if rng.random() < 0.7 else g.sym(w))
        return i, out
    bs = [(tied if form else branch)(j) for j in range(n)]
    tops = [i for i, _ in bs]
    while len(tops) > 1:              # any bracketing of the choice
        j = rng.choice([0, len(tops) - 2, rng.randint(0, len(tops) - 2)])
        tops[j:j + 2] = [g.alt(tops[j], tops[j + 1])]
    root, tail = tops[0], []
    x = rng.random()
    if x < 0.3:
        root = g.seql(root, g.pure())
    elif x < 0.6:
        keys = pool[:3] if mode == "char" else ["k%s:%s" % (v, v) for v in pool[:3]]
        root = g.add("bind", a=root, b=g.pure(), ts=keys, ks=[g.sym("b"), g.pure(), g.seq(g.sym("a"), g.sym("b"))])
    elif x < 0.75:
        root, tail = g.seq(g.un("maybe", root), g.sym("z")), ["z"]
    if rng.random() < 0.6:
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, mode, rng.randint(0, 11), tag=tag)
    for _ in range(4):
        s = rng.choice(bs)[1] + tail
        s = damage(rng, s, pool[:6] + ["z"], 6, n=0 if clean else 0 if form and rng.random() < 0.6 else None)
        st, ks = as_stream(rng, mode, s)
        (hook or (lambda r, R, ro, i, mi, km: R.both(ro, i, mi, km, sound=False)))(
            rng, R, root, R.add(st), rng.choice([0, 1, 2, 5]), rng.choice(ks))
    return R.session()


def errors(rng, tag, hook=None):
    """Many separate errors in one input (one candidate for the repair of each)."""
    mode = rng.choice(["char", "char", "obj", "lex"])
    g = fixed.G(mode)
    sat = lambda *vs: g.label(g.sat(*vs), "/".join(vs)) if rng.random() < 0.6 else g.sat(*vs)
    x = rng.random()
    if x < 0.35:
        root, unit, bad = g.un("many", g.seq(g.label(g.sat("a"), "A"), sat("b"))), "ab", "axb"
    elif x < 0.6:
        root, unit, bad = g.un("many", g.seql(sat("a", "b"), sat(";"))), "a;", "axx;"
    elif x < 0.8:
        root, unit, bad = g.bin(rng.choice(["sepby", "chainl1", "chainr1"]), sat("a"), g.fmap(sat(","))), "a,", "a,x"
    else:
        root = g.seq(sat("a"), g.un("maybe", g.seq(sat("b"), g.un("many", g.seq(sat("b"), sat("c"))))))
        unit, bad = "bc", "bxc"
    if rng.random() < 0.5:
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, mode, rng.randint(0, 11), tag=tag)
    R.fuel = 20000
    for _ in range(2):
        n = rng.choice([3, 8, 14, 28, 45, 45 if 0.6 <= x < 0.8 else 150])
        s = list("".join(rng.choice([unit, bad, bad, bad]) for _ in range(n)))
        if x >= 0.8:
            s = ["a", "b"] + s
        elif x >= 0.6:
            s += ["a"]
        st, ks = as_stream(rng, mode, s)
        (hook or (lambda r, R, ro, i, mi, km: R.both(ro, i, mi, km, sound=False)))(
            rng, R, root, R.add(st), rng.choice([0, 1, 5]), rng.choice(ks))
    return R.session()


def gaps(rng, tag):
    """Lists of items several of which lack something."""
    mode = rng.choice(["char", "char", "obj", "lex"])
    g = fixed.G(mode)
    pool = ["a", "b", "c", "d"]

    def part(v):
        x = rng.random()
        if x < 0.1 and mode == "lex":
            return g.tokins(v)
        i = g.sym(v)
        if x < 0.2:
            return g.rwith(i)
        if x < 0.3:
            return g.un("recover", i)
        return g.label(i, v.upper()) if x < 0.4 else i

    def item():
        vs = [rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
        i = part(vs[0])
        for v in vs[1:]:
            i = g.add(rng.choice(["seq", "seql", "seqr"]), a=i, b=part(v))
        x = rng.random()
        i = g.un("recover", i) if x < 0.1 else g.un("attempt", i) if x < 0.2 else g.rwith(i) if x < 0.3 else i
        return vs, i
    its = [item() for _ in range(rng.choice([1, 1, 2, 3]))]
    one = its[0][1]
    for _, i in its[1:]:
        one = g.alt(one, i)
    k = rng.choice(["many", "many", "many", "sepby", "chainl1", "chainr1", "tail"])
    if k == "many":
        root = g.un("many", one)
    elif k == "tail":
        root = g.seq(one, g.un("maybe", g.seq(g.sym(","), g.un("many", one))))
    else:
        s = part(",") if mode != "lex" else g.sym(",")
        root = g.bin(k, one, s if k == "sepby" else g.fmap(s))
    if rng.random() < 0.3:
        root = g.un("maybe", g.between(g.sym("("), g.sym(")"), root)) if rng.random() < 0.5 else g.seq(root, g.un("maybe", part("e")))
    if rng.random() < 0.7:
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, mode, rng.randint(0, 11), tag=tag)
    for _ in range(4):
        out = []
        for j in range(rng.choice([1, 2, 2, 3, 4])):
            vs = list(rng.choice(its)[0])
            if j and k not in ("many", "tail") or j == 1 and k == "tail":
                vs = [","] + vs
            if rng.random() < 0.7:
                x = rng.choice([rng.randrange(len(vs)), max(len(vs) - rng.choice([1, 2, 3]), 1)])
                del vs[x:x + rng.choice([1, 1, 2, 3])]
            if rng.random() < 0.15:
                vs.insert(rng.randint(0, len(vs)), rng.choice(pool + ["x"]))
            out += vs
        st, ks = as_stream(rng, mode, out)
        R.both(root, R.add(st), rng.choice([0, 1, 1, 2, 2, 3, 5]), rng.choice(ks), sound=False)
    return R.session()


def far(rng, tag):
    """What a repair needs lies far ahead."""
    mode = rng.choice(["char", "char", "obj", "lex"])
    g = fixed.G(mode)
    g.add("pure")
    kind = rng.choice(["sym", "sat", "lit", "rex", "eof"] if mode == "char" else ["sym", "sat", "eof"])
    t = {"sym": lambda: g.sym("a"), "sat": lambda: g.label(g.sat("a"), "A"), "lit": lambda: g.lit("ab"),
         "rex": lambda: g.rex("plus", ["a"]), "eof": g.pure}[kind]()
    if rng.random() < 0.2:
        t = g.un("recover", t) if rng.random() < 0.5 else g.rwith(t)
    root = g.seq(g.sym("b"), t)
    if rng.random() < 0.3:
        root = g.alt(root, g.seq(g.sym("c"), t))
    if rng.random() < 0.8 or kind == "eof":
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, mode, rng.randint(0, 11), tag=tag)
    for _ in range(2):
        s = ["b"] + [rng.choice("xyc") for _ in range(rng.choice([20, 70, 140, 300]))]
        s += {"sym": ["a"], "sat": ["a"], "lit": ["a", "b"], "rex": ["a", "a"], "eof": []}[kind]
        if rng.random() < 0.3:
            s.append("c")
        st, ks = as_stream(rng, mode, s)
        R.both(root, R.add(st), rng.choice([0, 0, 1, 5]), rng.choice(ks), sound=False)
    return R.session()


def longtext(rng, tag):
    """Errors far into a text: long stretches between the places whose location is asked for."""
    g = fixed.G()
    sep = rng.choice(["\n", "\r", "\x0b", "\x0c", "\u2028", "\x85", "\x1c", "\t"])
    body = g.rex("plus", ["a", " ", sep] if rng.random() < 0.5 else ["a", " "])
    word = g.label(g.rex("plus", ["b", "\n"]), "W") if rng.random() < 0.5 else g.sat("b", "\n", sep)
    item = g.alt(body, word)
    if rng.random() < 0.4:
        item = g.alt(g.between(g.sym("("), g.sym(")"), g.un("maybe", item)), item)
    root = g.un("many", item)
    if rng.random() < 0.8:
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, "char", rng.randint(0, 11), tag=tag)
    R.fuel = 20000
    for _ in range(2):
        out = []
        for _ in range(rng.randint(1, 6)):
            run = [rng.choice("aaaaaaaa " + (sep if rng.random() < 0.5 else "")) for _ in range(rng.choice([5, 40, 130, 270, 500]))]
            out += run + rng.choice([["b"], ["b", "\n", "b"], ["\n"], ["(", "a", ")"], []])
        j = rng.randint(len(out) // 2, len(out))
        out[j:j] = rng.choice([["x"], ["("], ["x", "x"], [")"]])
        R.both(root, R.add("".join(out)), rng.choice([1, 5]), rng.choice(["text", "text", "tab"]), sound=False)
    return R.session()


HUGE = ["many", "sepby", "chainl1", "chainr1", "rows", "tail"]


def huge(rng, tag, dmg=0.4):
    """Lists longer than the interpreter's recursion limit."""
    g = fixed.G()
    kind = HUGE[int(tag.split("/")[-1]) // 150 % len(HUGE)]
    a = g.sat("a", "b") if rng.random() < 0.5 else g.alt(g.sym("a"), g.label(g.sym("b"), "B"))
    n = rng.randint(2080, 2200) if tag.startswith("C03") and kind == "many" else rng.randint(1100, 1250)
    it = [rng.choice("ab") for _ in range(n)]
    if kind == "many":
        root, s = g.un("many", a), it
    elif kind == "rows":          # a long list of short lists
        root = g.un("many", g.seql(a, g.un("many", g.sym(","))))
        s = [x + "," * rng.choice([0, 0, 1, 2]) for x in it]
    elif kind == "tail":          # a long list that gives way to something else
        root, s = g.seq(g.un("many", g.sym("a")), g.un("maybe", g.sym("b"))), ["a"] * n + ["b"]
    else:
        sep = g.sym(",")
        if kind != "sepby":
            sep = g.add("fmap", a=sep, s="hop", n=40)
        root, s = g.bin(kind, a, sep), [x for y in it for x in (",", y)][1:]
    root = g.seql(root, g.eof())
    R = Rec(g.nodes, "char", rng.randint(0, 11), tag=tag)
    R.fuel = 60000
    if rng.random() < dmg:
        s = damage(rng, s, ["a", ","], 10 ** 6, n=1)
    try:
        Limit.room = 250
        R.both(root, R.add("".join(s)), 5, rng.choice(["plain", "text"]), sound=False)
    finally:
        Limit.room = 1000
    return R.session()


def is_huge(tag):
    return tag[-1] != "x" and int(tag.split("/")[-1]) % 150 == 7


def p04(rng, tag):
    x = rng.random()
    if is_huge(tag):
        return huge(rng, tag, 0)
    none = lambda r: 0 if r.random() < 0.8 else 1
    if rng.random() < 0.05:
        return wide(rng, tag, clean=True)
    if x < 0.7:
        return sess(rng, tag, modes=("char", "char", "obj", "lex", "raw"), dmg=none, mis=(0, 1, 2, 3, 5, 7),
                    w=dict(recover=6, rwith=8, rwithfn=5, attempt=8), lv=dict(lit=10, rex=10, letter=3, digit=2),
                    sound=False)
    if x < 0.8:
        return fixed_layout(rng, tag)
    return fixed_text(rng, tag, dmg=none, sound=False)


def p05(rng, tag):
    x = rng.random()
    if rng.random() < 0.12:
        return rng.choice([wide, errors, gaps, far])(rng, tag)
    w = dict(attempt=0 if x < 0.8 else 8, recover=5, rwith=8, rwithfn=5)
    if x < 0.85:
        return sess(rng, tag, modes=("char", "char", "obj", "lex"), w=w, dmg=some, mis=(0, 1, 2, 5), sound=False,
                    lv=dict(lit=8, rex=8))
    if x < 0.92:
        return fixed_layout(rng, tag)
    return fixed_text(rng, tag, dmg=some, sound=False)


def p06(rng, tag):
    x = rng.random()
    if rng.random() < 0.04:
        return errors(rng, tag, hook=lambda r, R, ro, i, mi, km: R.both(ro, i, mi, km))
    if x < 0.8:
        return sess(rng, tag, w=dict(recover=5, rwith=8, rwithfn=5, attempt=4), dmg=some, maxlen=8,
                    lv=dict(lit=10, rex=8), kms=("plain", "text", "lex"))
    return fixed_text(rng, tag, dmg=some, maxlen=16, which=[fixed.expr, fixed.json_like, fixed.stmts])


def gulf(rng, tag):
    """A great many elements missing in a row, allowed for or just not."""
    mode = rng.choice(["char", "char", "obj", "lex"])
    g = fixed.G(mode)
    n = rng.randint(24, 70)
    gone = rng.randint(20, n - 2)
    at = rng.randint(1, n - gone)
    vs = ["a"] * at + ["b"] * gone + ["c"] * (n - at - gone)     # no missing element is found further on
    root = g.seq(*[g.sym(v) for v in vs])
    if rng.random() < 0.5:
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, mode, rng.randint(0, 11), tag=tag)
    R.fuel = 20000
    st, ks = as_stream(rng, mode, vs[:at] + vs[at + gone:])
    i = R.add(st)
    for mi in (gone - 1, gone, rng.choice([gone + 1, 3 * gone, 10 ** 6])):
        R.both(root, i, mi, rng.choice(ks), sound=False)
    return R.session()


def p07(rng, tag):
    """Runs of missing elements, longer and shorter than the allowance."""
    mode = rng.choice(["char", "char", "obj", "lex"])
    if rng.random() < 0.15:
        return gaps(rng, tag)
    if rng.random() < 0.02:
        return gulf(rng, tag)
    if rng.random() < 0.4:
        return sess(rng, tag, modes=(mode,), w=dict(recover=4, rwith=8, rwithfn=5, tup=8), dmg=some,
                    mis=(0, 0, 1, 1, 2, 3, 4, 5, 6, 7), maxlen=10, lv=dict(lit=10))
    g = fixed.G(mode)
    pool = ["a", "b", "c"]

    def unit(d=0):
        x = rng.random()
        if x < 0.55 or d > 2:
            v = rng.choice(pool)
            if mode == "lex" and rng.random() < 0.3:
                return [v], g.tokins(v)
            return [v], g.sym(v)
        if x < 0.65:
            v, i = unit(d + 1)
            return v, g.rwith(i) if rng.random() < 0.6 else g.rwithfn(i)
        if x < 0.72:
            v, i = unit(d + 1)
            return v, g.un(rng.choice(["recover", "attempt"]), i)
        if x < 0.8:
            v, i = unit(d + 1)
            return v, g.un("many", i)
        if x < 0.87:
            v, i = unit(d + 1)
            v2, i2 = unit(d + 1)
            return v, g.alt(i, i2)
        if x < 0.91:
            return [], g.pure()
        v, i = unit(d + 1)
        v2, i2 = unit(d + 1)
        if x < 0.95:
            k = rng.choice(["maybe", "sepby", "chain", "fmap", "label", "delay", "block"])
            if k == "sepby":
                return v, g.bin("sepby", i if v else g.sym("a"), g.sym("c"))
            if k == "chain":
                return v, g.bin(rng.choice(["chainl1", "chainr1"]), i, g.fmap(g.sym("c")))
            return v, g.fmap(i) if k == "fmap" else g.label(i, "L") if k == "label" else g.un(k, i)
        return v + v2, join([i, i2])

    odd = rng.random() < 0.4

    def join(xs):
        """The parts one after the other, tied together in any way."""
        if len(xs) == 1:
            return xs[0]
        if not odd or rng.random() < 0.3:
            return g.seq(*xs)
        if len(xs) == 3 and rng.random() < 0.3:
            return g.between(xs[0], xs[2], xs[1])
        if len(xs) < 9 and rng.random() < 0.2:
            return g.apply(*xs) if rng.random() < 0.5 else g.tup(*xs)
        j = rng.choice([1, 1, len(xs) - 1, rng.randint(1, len(xs) - 1)])
        a, b = join(xs[:j]), join(xs[j:])
        k = rng.choice(["seq", "seql", "seqr", "bind", "bind", "bind"])
        return g.add("bind", a=a, b=b, ts=[], ks=[]) if k == "bind" else g.bin(k, a, b)
    ks, sent = [], []
    much = rng.random() < 0.2            # long runs, generous allowances
    for _ in range(rng.randint(12, 24) if much else rng.randint(3, 12)):
        v, i = unit(3 if much and rng.random() < 0.85 else 0)
        ks.append(i)
        sent.append(v)
    root = join(ks)
    if rng.random() < 0.7:
        root = g.seql(root, g.eof())
    R = Rec(g.nodes, mode, rng.randint(0, 11), tag=tag)
    for _ in range(4):
        out = []
        drop = rng.randint(0, len(sent) - 1)
        n = rng.randint(6, 22) if much else rng.randint(1, 8)
        for j, v in enumerate(sent):
            if drop <= j < drop + n:
                continue
            out += v
        if rng.random() < 0.4:
            out = damage(rng, out, pool, 14, n=1)
        s, ks_ = as_stream(rng, mode, out)
        R.both(root, R.add(s), rng.choice([5, 8, 9, 10, 11, 12, 16, 20] if much else [0, 1, 2, 3, 4, 5, 5, 6, 7]), rng.choice(ks_), sound=len(out) <= 10)
    return R.session()


def p08(rng, tag):
    x = rng.random()
    if rng.random() < 0.3:
        return rng.choice([wide, wide, errors, gaps, gaps, far])(rng, tag)
    if x < 0.8:
        return sess(rng, tag, w=dict(recover=9, rwith=9, rwithfn=4, alt=30, many=10, attempt=5), dmg=some, maxlen=8,
                    rooted=["alt", "seq", "many", "sepby", "between", "tup"], lv=dict(lit=8, rex=6), sound=False,
                    mis=(1, 2, 5, 5, 3))
    return fixed_text(rng, tag, dmg=some, maxlen=18, sound=False)


def p09(rng, tag):
    x = rng.random()
    if rng.random() < 0.08:
        return rng.choice([longtext, longtext, errors, far])(rng, tag)
    if x < 0.62:
        return sess(rng, tag, modes=("char",), alpha=TEXTS, kms=("text", "tab", "text", "abs"), dmg=some, maxlen=14,
                    lv=dict(lit=20, rex=25, sym=20), w=dict(many=12), sound=False, mis=(0, 1, 5, 5))
    if x < 0.82:
        return sess(rng, tag, modes=("lex",), dmg=some, maxlen=10, sound=False, mis=(0, 1, 5, 5),
                    w=dict(block=3, aligned=1, indented=1))
    if x < 0.9:
        return fixed_layout(rng, tag)
    return fixed_text(rng, tag, dmg=some, sound=False, kms=("text", "tab"))


def p10(rng, tag):
    x = rng.random()
    if rng.random() < 0.12:
        return rng.choice([wide, wide, errors])(rng, tag)
    if x > 0.99:
        return longlit(rng, tag)
    if x < 0.2:
        return sess(rng, tag, dmg=some, sound=False, mis=(0, 1, 2, 5), w=dict(label=10, maybe=16, many=12, alt=26, attempt=3),
                    lv=dict(pure=25, purefn=10, unexp=5, eof=10, purelist=3), depth=(2, 3, 4),
                    rooted=["again", "again", "prefix", "option", "alt"], gopts=dict(share=0.3))
    if x < 0.85:
        return sess(rng, tag, modes=("char", "char", "obj", "lex"), dmg=some, sound=False, mis=(0, 1, 2, 5),
                    w=dict(label=14, maybe=12, many=12, alt=26, attempt=3 if x < 0.3 else 0, sepby=5, bind=5),
                    lv=dict(lit=8, rex=8, letter=4, digit=2, unexp=5, eof=10), depth=(3, 4, 5),
                    gopts=dict(emptylabel=0.05, share=0.08 if rng.random() < 0.7 else 0.3))
    return fixed_text(rng, tag, dmg=some, sound=False)


LAY = dict(block=12, aligned=14, indented=12, alt=12, many=10, attempt=4, maybe=6, idiom=20)


def p11(rng, tag):
    x = rng.random()
    if x < 0.15:
        return sess(rng, tag, modes=("lex", "lex", "char"), w=dict(LAY, aligned=25), depth=(2, 3, 4), dmg=few, maxlen=8, nin=6,
                    mis=(0, 1, 2, 5), rooted=["again", "again", "prefix", "option"], alpha=[["a", "b", "\n"]],
                    kms=("text", "lex", "abs"))
    if x < 0.4:
        return sess(rng, tag, modes=("lex",), w=LAY, depth=(3, 4, 5), dmg=few, maxlen=8, mis=(0, 1, 2, 5))
    if x < 0.6:
        return sess(rng, tag, modes=("char",), w=LAY, alpha=[["a", "b", "\n"], ["a", " ", "\n"], ["a", "\t", "\n"]],
                    depth=(3, 4, 5), kms=("text", "tab", "abs"), dmg=few, maxlen=10, lv=dict(lit=15, rex=15))
    if x < 0.8:
        return fixed_layout(rng, tag)
    return fixed_text(rng, tag, which=[fixed.yaml_like], kms=("text", "text", "tab"), dmg=few, maxlen=30, sound=False)


def p13(rng, tag):
    """Histories over shared parsers: several roots, modes, repeated and late unwraps, client interference."""
    mode = rng.choice(["char", "char", "obj", "lex", "raw"])
    al = rng.choice(RAWALPHA) if mode == "raw" else ALPHA
    g = Gen(rng, mode, al, w=dict(recover=5, rwith=7, rwithfn=3, attempt=6, delay=rng.choice([3, 15])),
            lv=dict(purelist=4, purefn=6, lit=6, rex=6), boom=0.4, share=rng.choice([0.08, 0.3]))
    roots = [g.root(rng.choice([2, 3])) for _ in range(2)]
    if rng.random() < 0.3:            # recursion, in which a predicate may raise
        d = g.add("delay")
        s = g.add("sat", ts=al[:2], n=1)
        g.nodes[d - 1]["a"] = g.add("alt", a=g.add(rng.choice(["seq", "seql"]), a=g.sym(al[-1]), b=d),
                                    b=g.wrap(s, "", "many", "maybe", "rwith", "label"))
        roots[0] = g.add("seq", a=g.wrap(g.sym(), "", "maybe", "many"), b=d)
    # a parser that uses an earlier root as a part
    a = g.add("alt", a=g.add("attempt", a=roots[0]), b=roots[1])
    roots.append(g.add("seq", a=a, b=g.add("maybe", a=roots[0])))
    roots += rng.sample(range(1, len(g.nodes) + 1), min(2, len(g.nodes)))
    if len(g.nodes) > 80:
        return None
    R = Rec(g.nodes, mode, rng.randint(0, 11), early=rng.random() < 0.4, tag=tag)
    for _ in range(3):
        s = damage(rng, sentence(rng, g.nodes, rng.choice(roots), 7), al, 7,
                   extra=None if mode == "raw" else rng.choice(["x", "!"]))
        st, _ = as_stream(rng, mode, s)
        if isinstance(st, str) and rng.random() < 0.6 and not any(n["k"] in ("lit", "rex") for n in g.nodes):
            st = list(st)
        R.add(st)
    km = {"char": ["plain", "text", "tab"], "lex": ["lex"]}.get(mode, ["plain"])
    live, spoiled, results, family = [], set(), {}, {}
    slots = [1, 2, 3]                  # input numbers whose objects still have the contents written down
    for _ in range(rng.randint(8, 16)):
        if R.dead:
            break
        x = rng.random()
        if rng.random() < 0.15:           # the client changes a list it parsed before
            j = rng.randrange(len(slots))
            old = R.streams[slots[j] - 1]
            if type(old) is list and old:
                y = rng.choice([0, len(old) - 1, rng.randrange(len(old))])
                again = (rng.choice(roots + [1]), rng.random() < 0.4)
                R.parse(again[0], slots[j], again[1], 5, km[-1] if mode == "lex" else "plain")
                if rng.random() < 0.5:
                    old.insert(y, old.pop())
                elif rng.random() < 0.5:
                    old[y] = rng.choice(old)
                else:
                    old.pop(y)
                slots[j] = R.add(old)
                h = R.parse(again[0], slots[j], again[1], 5, km[-1] if mode == "lex" else "plain")
                if h:
                    live.append(h)
                    R.unwrap(h)
        if x < 0.45 or not live:
            i = rng.choice(slots)
            k = rng.choice(km)
            if not isinstance(R.streams[i - 1], str) and mode == "char":
                k = "plain"
            h = R.parse(rng.choice(roots), i, rng.random() < 0.65, rng.choice([0, 1, 2, 5]), k)
            if h:
                live.append(h)
            if rng.random() < 0.5:
                R.stream(i)
        elif x < 0.9:
            h = rng.choice(live)
            u = rng.random() < 0.5
            if family.get(h, h) in spoiled:
                if results.get(h) != "err":
                    continue
                u = False
            keep = []
            R.unwrap(h, u, keep)
            kind, v = keep[0]
            if not u:
                results[h] = kind
            if rng.random() < 0.4:
                if kind == "err":            # the caller edits the exception it caught
                    for it in v.errors:
                        if isinstance(it.expected, list):
                            it.expected.append("junk")
                            it.expected.reverse()
                    v.errors.reverse()
                    v.errors.append(v.errors[0])
                    R.log("touch")
                elif kind == "ok" and spoil(v):
                    spoiled.add(family.get(h, h))           # the caller edits the value it was given
                    R.log("touch")
        else:
            h = rng.choice(live)
            if family.get(h, h) not in spoiled:
                h2 = R.rfmap(h, rng.randint(1, 9))
                if h2:
                    family[h2] = family.get(h, h)
                    live.append(h2)
    return R.session()


def spoil(v):
    if any(v is x for x in RAW.values()):      # the client's own element, not something the parse made
        return False
    if type(v) is list:
        v.append("junk")
        v.reverse()
        return True
    if type(v) is tuple:
        return any([spoil(x) for x in v])
    from build import V
    if type(v) is V:
        return any([spoil(x) for x in v.c])
    return False


def p14(rng, tag):
    """Delays defined early, late, never, twice; used before and after definition; mutual and deep recursion."""
    x = rng.random()
    if x < 0.25:
        return sess(rng, tag, w=dict(delay=25), depth=(2, 3, 4), rooted=["delay"], dmg=few, maxlen=16)
    if x < 0.35:
        return fixed_text(rng, tag, which=[fixed.expr, fixed.json_like], dmg=few, maxlen=40)
    if x < 0.45:
        return deep(rng, tag)
    mode = rng.choice(["char", "obj", "lex"])
    g = Gen(rng, mode, ALPHA, w=dict(delay=0))
    nd = rng.randint(1, 3)
    ds = [g.add("delay") for _ in range(nd)]
    bodies = []
    for j in range(nd + 1):
        a, _ = g.gen(2)
        b = g.add("alt", a=g.add("seq", a=g.sym(), b=rng.choice(ds)), b=a)
        bodies.append(b)
    uses = [g.add(rng.choice(["seq", "alt", "seql"]), a=rng.choice(ds), b=rng.choice(bodies + ds)) for _ in range(2)]
    wraps = [g.add(rng.choice(["many", "maybe", "attempt", "recover", "fmap"]), a=g.add("seq", a=g.sym(), b=d))
             for d in ds]
    roots = ds + uses + wraps
    late = [d for d in ds if rng.random() < 0.7]
    for d in ds:
        if d not in late:
            g.nodes[d - 1]["a"] = rng.choice(bodies)
    # the parsers not listed in roots_now are built only after the definitions
    R = Rec(g.nodes, mode, rng.randint(0, 11), late=late, early=rng.random() < 0.5, tag=tag)
    later = bodies + [g.add("attempt", a=ds[-1])]
    streams = []
    for _ in range(3):
        s = damage(rng, sentence(rng, g.nodes, rng.choice(roots), 7), ALPHA, 7)
        st, ks = as_stream(rng, mode, s)
        streams.append((R.add(st), ks))
    for _ in range(rng.randint(6, 12)):
        if R.dead:
            break
        if rng.random() < 0.35:
            d = rng.choice(ds)
            # by a parser, or by a forward declaration that comes later (never in a circle)
            after = ds[ds.index(d) + 1:]
            R.define(d, rng.choice(after) if after and rng.random() < 0.35 else rng.choice(later if after else bodies))
        else:
            i, ks = rng.choice(streams)
            r = rng.choice(roots)
            rec = rng.random() < 0.5
            h = R.parse(r, i, rec, rng.choice([0, 1, 5]), rng.choice(ks))
            if h:
                R.unwrap(h)
                if rec:
                    R.unwrap(h, True)
    return R.session()


def deep(rng, tag):
    g = fixed.G()
    d = g.delay()
    k = rng.random()
    if k < 0.5:
        g.define(d, g.alt(g.between(g.sym("("), g.sym(")"), d), g.sym("a")))
    else:
        g.define(d, g.un("maybe", g.seq(g.sym("a"), d)))
    root = g.seql(d, g.eof())
    R = Rec(g.nodes, "char", rng.randint(0, 11), early=rng.random() < 0.5, tag=tag)
    n = rng.choice([8, 15, 30, 60, 110 if k < 0.5 else 95])
    s = "(" * n + "a" + ")" * n if k < 0.5 else "a" * n
    R.both(root, R.add(s), 2, "plain", sound=False)
    if k < 0.5:
        R.both(root, R.add("(" * 4 + "a" + ")" * 3), 5, "text", sound=False)
    return R.session()


def p15(rng, tag):
    x = rng.random()
    if is_huge(tag):
        return huge(rng, tag, 0.8)
    if x < 0.7:
        return sess(rng, tag, gopts=dict(nullable_many=0.5), w=dict(many=20, sepby=8, chainl1=4, chainr1=4, delay=8, rwith=6),
                    lv=dict(rex=15, lit=5, eof=8), dmg=few, depth=(2, 3, 4), mis=(0, 1, 2, 5, 7), maxlen=8)
    if x < 0.85:
        return fixed_text(rng, tag, maxlen=30, sound=False)
    return deep(rng, tag)


def p16(rng, tag):
    return sess(rng, tag, modes=("char", "obj", "lex", "lex"), w=dict(rwith=22, rwithfn=22, recover=4, alt=16, many=10, attempt=5, maybe=8),
                rooted=["rwith", "rwithfn", "alt", "seq", "many", "sepby"], lv=dict(tokins=35, tok=10, lit=6),
                dmg=lambda r: r.choice([0, 1, 1, 2]), mis=(0, 1, 2, 5, 5), gopts=dict(rawpure=0.3, emptylabel=0.03))


def longlit(rng, tag):
    """Literals and matches of hundreds of characters."""
    g = fixed.G()
    n = rng.choice([60, 130, 260, 515, 600])
    lit = "".join(rng.choice("ab") for _ in range(n))
    parts = [g.lit(lit), g.rex(rng.choice(["plus", "trail", "all", "pre"]), ["a", "b"], "c"), g.sym("c")]
    rng.shuffle(parts)
    root = g.seq(*[g.un("maybe", p) if rng.random() < 0.3 else p for p in parts])
    R = Rec(g.nodes, "char", rng.randint(0, 11), tag=tag)
    for _ in range(2):
        s = []
        for p in parts:
            nd = g.nodes[p - 1]
            s += list(lit) if nd["k"] == "lit" else ["c"] if nd["k"] == "sym" else [rng.choice("ab") for _ in range(n)]
        s = damage(rng, s, ["a", "b", "c"], 10 ** 6, n=rng.choice([0, 1, 1]))
        R.both(root, R.add("".join(s)), rng.choice([0, 1, 5]), rng.choice(["plain", "text"]), sound=False)
    return R.session()


def p17(rng, tag):
    x = rng.random()
    if rng.random() < 0.04:
        return rng.choice([longlit, far])(rng, tag)
    if x < 0.5:
        return sess(rng, tag, modes=("raw", "obj", "lex", "char"), depth=(0, 1, 1, 2), dmg=few, maxlen=5, nin=6,
                    lv=dict(lit=20, rex=30, letter=12, digit=10, unexp=6, eof=15, sat=25, purelist=5),
                    gopts=dict(rawpure=0.5), eof=0.3)
    if x < 0.85:
        return sess(rng, tag, modes=("char",), alpha=[["a", "\n", "b"], ["a", "b", "0"], ["\u00e9", "a", "\u0663"], ["\u00b2", "\u00bd", "7"],
                                                     ["a", "-", "7"], ["_", "!", "a"], ["a", "A", "b"]],
                    depth=(0, 1, 1, 2, 3), dmg=rng.choice([few, some]), maxlen=6, nin=6, eof=0.3,
                    gopts=dict(odd=rng.choice([0, 0, 0.1])),
                    lv=dict(lit=20, rex=40, letter=15, digit=15, sym=15, sat=15))
    return sess(rng, tag, modes=("raw",), depth=(1, 2, 3), dmg=few, maxlen=6)


def p18(rng, tag):
    def hook(r, R, root, i, mi, km):
        for rec in (False, True):
            if R.dead:
                return
            h = R.parse(root, i, rec, mi, km)
            hs = [h] if h else []
            seen = {}
            for _ in range(r.randint(1, 3)):
                if hs:
                    h1 = r.choice(hs)
                    for u in (False, True):      # unwrapped before, between and after mapping
                        if r.random() < 0.4 and (h1, u) not in seen:
                            seen[h1, u] = R.unwrap(h1, u)
                    n = r.randint(1, 9)
                    h2 = R.rfmap(h1, n)
                    if h2:
                        hs.append(h2)
                        for u in r.sample([False, True], 2):
                            seen[h2, u] = R.unwrap(h2, u)
                            if (h1, u) not in seen:
                                seen[h1, u] = R.unwrap(h1, u)
                            R.log("fmaprel", x=[seen[h1, u], seen[h2, u]], n=n)
    if rng.random() < 0.15:
        return rng.choice([wide, errors])(rng, tag, hook=hook)
    if rng.random() < 0.8:
        return sess(rng, tag, modes=("char", "obj", "lex", "raw"), dmg=some, hook=hook, nin=3, mis=(0, 1, 2, 5, 5),
                    w=dict(label=10, recover=4, rwith=7), gopts=dict(emptylabel=0.08, rawpure=0.3),
                    lv=dict(lit=8, rex=6))
    return fixed_text(rng, tag, dmg=some, hook=hook, nin=3)


def p20(rng, tag):
    """The calls of user functions in parses without recovery."""
    Rec.calls = True
    try:
        x = rng.random()
        if is_huge(tag):
            return huge(rng, tag, 0)
        if x < 0.75:
            return sess(rng, tag, modes=("char", "char", "obj", "lex", "raw"), dmg=few, mis=(1, 5), nin=5, sound=False,
                        w=dict(fmap=18, bind=12, apply=8, chainl1=6, chainr1=6, sepby=6, many=10, alt=20, attempt=8),
                        lv=dict(sat=50, purefn=16, purelist=5, tok=20), gopts=dict(boom=0.2, rawpure=0.3), maxlen=10)
        if x < 0.9:
            return long_lists(rng, tag)
        return fixed_text(rng, tag, dmg=few, sound=False)
    finally:
        Rec.calls = False


def pipe(rng, tag, w=None):
    """Texts through the lexer and then a parser of tokens."""
    al = rng.sample("abcdef", rng.randint(2, 4))
    sp, spell = [], {}
    hollow = rng.random() < 0.15          # quotes with nothing between them, texts that end early
    for ch in al:
        f = "quoted" if hollow and rng.random() < 0.7 else rng.choice(["one"] * 4 + ["plus", "plus", "quoted", "nest", "two", "lead", "ahead", "bol"])
        v = rng.choice({"quoted": "\"'\n", "nest": "$@\n", "two": ";:\n", "lead": ";\n", "ahead": " \n" + "".join(x for x in al if x != ch)}.get(f, "-"))
        sp.append(dict(f=f, g="k" + ch, h="h" + ch if f in ("nest", "two") else "", ts=[ch], v=v))
        spell[ch] = dict(quoted=lambda v=v, ch=ch: v + ch * rng.choice([0, 0, 0, 1] if hollow else [0, 1, 1, 2]) + v, nest=lambda v=v, ch=ch: v + ch * rng.choice([0, 1, 2]),
                         two=lambda v=v, ch=ch: ch + v, lead=lambda v=v, ch=ch: ch * rng.choice([1, 1, 2]) + v, ahead=lambda v=v, ch=ch: ch + v,
                         plus=lambda v=v, ch=ch: ch * rng.choice([1, 1, 2]), bol=lambda v=v, ch=ch: "\n" + ch).get(f, lambda v=v, ch=ch: ch)
        if rng.random() < 0.3:            # also on its own
            sp.append(dict(f="one", g="o" + ch, h="", ts=[ch], v="-"))
            if f in ("quoted", "nest", "two", "lead", "ahead", "bol"):
                sp[-1]["g"], sp[-2]["g"] = "k" + ch, "o" + ch
                spell[ch] = lambda ch=ch: ch
    if rng.random() < 0.3:
        sp.append(dict(f="quoted", g="", h="", ts=sorted(set(al + [" ", "\n"])), v="#"))
    if rng.random() < 0.3:
        rng.shuffle(sp)
    ws = rng.choice([[" ", "\n"], [" "], ["\n", "\r"], ["\t", "\n"], [" ", "\n", "\u2028"]])
    if rng.random() < 0.95:
        sp.append(dict(f=rng.choice(["plus", "plus", "one"]), g=rng.choice(["", "", "", "", "sp"]), h="", ts=ws, v="-"))
    gaps_ = ["", "", ws[0], ws[-1], ws[-1] + ws[0] * 2, ws[0] * 3, ws[-1] * 2] + (["#" + al[0] + ws[-1] + "#"] if rng.random() < 0.5 else [])
    g = Gen(rng, "lex", al, w=w, lv=dict(tok=30, tokins=12, sym=0 if hollow else 15, eof=4))
    root = g.root(rng.choice((2, 3, 4)), 0.6)
    if len(g.nodes) > 70:
        return None
    R = Rec(g.nodes, "lex", rng.randint(0, 11), early=rng.random() < 0.4, tag=tag)
    for _ in range(5):
        s = damage(rng, sentence(rng, g.nodes, root, 9), al, 10, extra=None)
        s = s[:rng.randint(1, 9)] if hollow else s
        tx = list(rng.choice(gaps_) + "".join(spell.get(ch, lambda: "?")() + rng.choice(gaps_) for ch in s))
        if rng.random() < 0.08:
            tx.insert(rng.randint(0, len(tx)), rng.choice("?#\"'$" + al[0]))
        i = R.lex(sp, tx[:60])
        if i:
            at = len(R.ev)
            ids = R.both(root, i, rng.choice((0, 1, 2, 5, 5)), "lex", False)
            if ids and not R.twin:
                R.log("piped", x=[at] + ids)
    return R.session()


def again(nodes):
    return nodes + moved(nodes, len(nodes)), (len(nodes), [])


def p23(rng, tag):
    """A grammar and the same grammar in another spelling; parts of both on their own."""
    Rec.rewrites, Rec.respell = staticmethod(again), random.Random(tag).choice((1, 3, 5, 7, 9, 11))

    def parts(rng, R, root, i, mi, km):
        n = R.twin[0]
        R.both(root, i, mi, km)
        ext = [nd["a"] for nd in R.nodes[:n] if nd["a"] and (nd["k"] == R.nodes[nd["a"] - 1]["k"] or nd["k"] == "thenN")]
        R.both(rng.choice(ext) if ext and rng.random() < 0.7 else rng.randint(1, n), i, mi, km)
        if rng.random() < 0.5:
            R.both(root, i, mi, km)
    try:
        x = rng.random()
        if x < 0.5:
            return sess(rng, tag, modes=("char", "char", "obj", "lex", "raw"), mis=(0, 1, 2, 5, 5), nin=4, dmg=few, depth=(2, 3, 3),
                        rooted=rng.choice([None, ["tup", "alt", "alt", "again", "option"]]), maxlen=7, hook=parts, gopts=dict(rawpure=0.3, share=rng.choice([0.08, 0.25])), w=dict(between=6, tup=8, apply=6, block=4, aligned=4, indented=4, chainl1=8, chainr1=8,
                        bind=8, label=8, rwith=8, rwithfn=8))
        if x < 0.6:
            return fixed_text(rng, tag, nin=3)
        return rng.choice([p02, p03, p11, p16, p17])(rng, tag + "x")
    finally:
        Rec.rewrites, Rec.respell = None, 0


def p22(rng, tag):
    x = rng.random()
    if x < 0.5:
        return pipe(rng, tag)
    if x < 0.75:
        return pipe(rng, tag, LAY)
    return pipe(rng, tag, dict(rwithfn=15, rwith=5, recover=8, many=12, sepby=10, alt=20))


def p24(rng, tag):
    """What is asked of location functions and streams; the same parse under other location functions."""
    Rec.asks = True

    def placed(rng, R, root, i, mi, km):
        ks = [km] + rng.sample([k for k in ("plain", "text", "tab", "abs") if k != km], 1) if km != "lex" else [km]
        if type(R.streams[i - 1]) not in (str, Str) and km != "lex":
            ks = ["plain", "abs"]
        ids = [R.battery(root, i, mi, k, False) for k in ks]
        if len(ids) == 2 and all(ids):
            R.log("placed", x=[x for ab in zip(*ids) for x in ab])
    try:
        x = rng.random()
        if x < 0.35:
            return sess(rng, tag, modes=("char", "char", "lex"), alpha=TEXTS, kms=("text", "tab", "text", "abs"), dmg=some, maxlen=14,
                        lv=dict(lit=20, rex=25, sym=20), w=dict(LAY) if x < 0.12 else dict(many=12), mis=(0, 1, 5, 5), sound=False)
        if x < 0.7:
            return sess(rng, tag, modes=("char", "char", "obj", "raw"), dmg=some, maxlen=10, mis=(0, 1, 2, 5), hook=placed, nin=3,
                        lv=dict(lit=10, rex=10, eof=6), w=dict(recover=8, rwith=8, attempt=8, many=12, rwithfn=5))
        if x < 0.8:
            return fixed_text(rng, tag, nin=2, kms=("text", "tab"), sound=False)
        return rng.choice([p05, p08, p09, p11, p16, p17])(rng, tag + "x")
    finally:
        Rec.asks = False


def p21(rng, tag):
    """A grammar and the same grammar rewritten by the laws."""
    Rec.rewrites = staticmethod(twin(random.Random(tag), 4))
    try:
        x = rng.random()
        if x < 0.4:
            return sess(rng, tag, modes=("char", "char", "obj", "lex", "raw"), mis=(0, 1, 2, 5), nin=4,
                        w=dict(alt=26, attempt=10, maybe=10, many=12, sepby=8, between=6, recover=10, label=8, fmap=8,
                               block=4, aligned=3, indented=3), depth=(2, 3, 3), maxlen=7)
        if x < 0.6:
            return gaps(rng, tag)
        if x < 0.7:
            return rng.choice([wide, wide, errors])(rng, tag)
        if x < 0.8:
            return fixed_text(rng, tag, nin=3)
        tag += "x"                     # no huge lists: rewriting may nest more deeply
        return rng.choice([p01, p02, p03, p07, p08, p10, p11, p16, p17])(rng, tag)
    finally:
        Rec.rewrites = None


SEM = {"kind", "value", "peg", "ops", "rkind", "rvalue", "rops"}
# property -> (sessions, clauses of spec/Trace.tla whose failure is a violation of the property)
PROFILES = {
    "C01": (p01, SEM | {"loc", "furthest"}),
    "C02": (p02, SEM),
    "C03": (p03, SEM),
    "C04": (p04, {"conservative"}),
    "C05": (p05, {"hidden", "noedit", "firstloc", "firstexp"}),
    "C06": (p06, {"editswf", "explains"}),
    "C07": (p07, {"budget", "allowance", "found"}),
    "C08": (p08, {"rops", "rkind", "rvalue", "chosen"}),
    "C09": (p09, {"loc", "rloc", "locwf", "locstr", "furthest", "firstloc"}),
    "C10": (p10, {"expected", "rexpected", "tried", "firstexp"}),
    "C11": (p11, SEM | {"loc", "furthest", "indent"}),
    "C13": (p13, SEM | {"ops", "loc", "rloc", "expected", "rexpected", "locstr", "message", "itemmsg", "callback",
                        "stream", "noitems", "locwf", "allowance"}),
    "C14": (p14, SEM | {"define"}),
    "C15": (p15, {"end"}),
    "C16": (p16, SEM | {"callback", "ops", "chosen"}),
    "C17": (p17, SEM),
    "C21": (p21, {"law", "lawform"}),
    "C23": (p23, {"law", "lawform", "kind", "value", "rkind", "rvalue", "peg"}),
    "C24": (p24, {"asked", "reads", "formats", "placed", "locstr"}),
    "C22": (p22, {"lexkind", "lextoks", "lexloc", "lexmsg", "textloc", "kind", "value", "rkind", "rvalue", "loc", "rloc", "locstr", "locwf"}),
    "C20": (p20, {"calls", "rcalls"}),
    "C18": (p18, {"message", "itemmsg", "fmapped", "noitems"}),
}


def make(arg):
    """The session numbered it, or None: some draws are too big."""
    pid, seed, it = arg
    if Limit.hangs >= 2:
        return None
    tag = "%s/%s/%d" % (pid, seed, it)
    return PROFILES[pid][0](random.Random(tag), tag)


def corpus(pid, seed, n):
    return [s for s in (make((pid, seed, it)) for it in range(n)) if s]
