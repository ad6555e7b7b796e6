"""A small library of parsers and inputs shared by the client models (spec/Solo.tla, History.tla, Conc.tla)."""
from build import Env, Tok
from fixed import G
from record import Loc, R_lexer, Rec, contents


def toks(s, cols=None):
    out = []
    for j, ch in enumerate(s):
        c = (cols or range(0, 99, 2))[j]
        ln = 0 if cols is None else j
        out.append(R_lexer.Token("k" + ch, ch, Loc(10 * ln + c, ln, c), Loc(10 * ln + c + 1, ln, c + 1)))
    return out


def items():
    """[a, b] lists with recovery, labels and backtracking"""
    g = G()
    a = g.fmap(g.sat("a"))
    b = g.label(g.sat("b"), "bee")
    item = g.alt(g.un("attempt", g.seq(a, b)), g.rwith(a))
    lst = g.bin("sepby", item, g.sym(","))
    root = g.seql(lst, g.eof())
    other = g.seql(g.un("many", item), g.un("maybe", b))
    return g, "text", [root, other], ["ab,a", "a,,b", "aab", "x"]


def nested():
    """recursive brackets over a shared forward declaration, recovery at every level"""
    g = G()
    d = g.delay()
    atom = g.un("recover", g.fmap(g.sat("a", "b")))
    br = g.between(g.sym("("), g.sym(")"), d)
    g.define(d, g.un("many", g.alt(atom, br)))
    root = g.seql(d, g.eof())
    return g, "plain", [root, d], ["a(b)", "(a", "(a))"]


def chain():
    g = G()
    n = g.alt(g.fmap(g.sat("a")), g.rwithfn(g.sym("b")))
    e = g.bin("chainl1", n, g.fmap(g.sym("+")))
    root = g.seql(g.bin("chainr1", e, g.fmap(g.sym("^"))), g.eof())
    return g, "tab", [root, e], ["a+b^a", "a+^b", "a\t+"]


def block():
    g = G("lex")
    it = g.un("aligned", g.alt(g.fmap(g.tok("a")), g.tokins("b")))
    inner = g.un("indented", g.un("many", it), n=1)
    root = g.seql(g.un("block", g.seq(g.un("many", it), g.un("maybe", inner))), g.eof())
    return g, "lex", [root], [toks("ab", [0, 0]), toks("aba", [0, 1, 1]), toks("ca", [0, 0]), []]


def boom():
    """a predicate that raises"""
    g = G()
    s = g.add("sat", ts=["a"], n=1)
    p = g.un("many", g.label(s, "ay"))
    root = g.seql(g.seq(p, g.un("maybe", g.sym("b"))), g.eof())
    return g, "plain", [root, p], ["aa", "a!", "ac", "ab"]


def library(which, modes, per):
    out, real = [], []
    for fn in which:
        g, km, roots, ins = fn()
        for n, nd in enumerate(g.nodes):
            if nd["k"] == "sat" and not nd["n"]:
                pass
        combos = [dict(r=r, i=i + 1, m=m, mi=mi) for r in roots for i in range(len(ins)) for m, mi in modes]
        # spread over the list, keeping every mode
        step = max(1, len(combos) // per)
        while step > 1 and step % len(modes) == 0:
            step += 1
        combos = combos[::step][:per]
        R = Rec(g.nodes, g.mode if g.mode != "char" else "char", 0)
        for s in ins:
            R.add(s)
        out.append(dict(nodes=g.nodes, defd=R.defd, inputs=R.inputs, km=km, combos=combos, name=fn.__name__))
        real.append(dict(mode=g.mode, types=[type(s).__name__ for s in ins]))
    return out, real


ALL = [items, nested, chain, block, boom]
