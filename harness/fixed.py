"""Hand-written grammars of realistic shape, as arenas, each with an input sampler."""
from build import LETTERS, node


class G:
    """Small construction helper over an arena; every method returns a node number."""

    def __init__(self, mode="char"):
        self.nodes = []
        self.mode = mode
        self.tag = 0

    def add(self, k, **kw):
        self.nodes.append(node(k, **kw))
        return len(self.nodes)

    def sym(self, v, label=None):
        if self.mode == "char":
            return self.add("sym", s=v, v=v, l=repr(v) if label is None else label)
        if self.mode == "lex":
            d = "Token(kind=%r, value=%r)" % ("k" + v, v)
        else:
            d = "<%s:%s>" % ("k" + v, v)
        return self.add("sym", s="k" + v, v=v, l=d if label is None else label, n=1)

    def tok(self, v):
        return self.add("tok", s="k" + v, l="k" + v)

    def tokins(self, v, ins="z"):
        return self.add("tokins", s="k" + v, v=ins, l="k" + v)

    def sat(self, *ts):
        return self.add("sat", ts=list(ts))

    def lit(self, s):
        return self.add("lit", ts=list(s), l=repr(s))

    def rex(self, form, ts, v="x"):
        return self.add("rex", s=form, ts=list(ts), v=v)

    def letter(self):
        return self.add("letter", ts=LETTERS, l="letter")

    def eof(self):
        return self.add("eof", l="end of file")

    def pure(self, code=""):
        self.tag += 1
        return self.add("pure", n=self.tag, s=code)

    def un(self, k, a, **kw):
        return self.add(k, a=a, **kw)

    def label(self, a, l):
        return self.add("label", a=a, l=l)

    def fmap(self, a):
        self.tag += 1
        return self.add("fmap", a=a, n=self.tag)

    def rwith(self, a, label=None):
        self.tag += 1
        s = "I%d" % self.tag
        return self.add("rwith", a=a, s=s, n=self.tag, l=s if label is None else label)

    def rwithfn(self, a, label=None):
        self.tag += 1
        s = "I%d" % self.tag
        return self.add("rwithfn", a=a, s=s, n=self.tag, l=s if label is None else label)

    def bin(self, k, a, b):
        return self.add(k, a=a, b=b)

    def seq(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.bin("seq", r, x)
        return r

    def seql(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.bin("seql", r, x)
        return r

    def seqr(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.bin("seqr", r, x)
        return r

    def alt(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.bin("alt", r, x)
        return r

    def tup(self, *xs):
        r = self.bin("then", xs[0], xs[1])
        for x in xs[2:]:
            r = self.bin("thenN", r, x)
        return r

    def apply(self, *xs):
        self.tag += 1
        return self.add("apply", a=self.tup(*xs), n=self.tag)

    def between(self, o, c, body):
        return self.add("between", a=o, b=c, c=body)

    def delay(self):
        return self.add("delay")

    def define(self, d, a):
        self.nodes[d - 1]["a"] = a


def json_like(rng):
    """Nested lists and records over characters, with or without recovery annotations."""
    g = G()
    rec = rng.random() < 0.6
    val = g.delay()
    comma = g.sym(",")
    num = g.label(g.rex("plus", "01"), "number")
    if rec:
        num = g.rwith(num, rng.choice([None, "number!"]))
    key = g.label(g.rex("plus", "ab"), "key")
    if rec and rng.random() < 0.5:
        key = g.rwithfn(key)
    pair = g.bin("seq", g.seql(key, g.sym(":")), val)
    lst = g.between(g.sym("["), g.sym("]"), g.bin("sepby", val, comma))
    obj = g.between(g.sym("{"), g.sym("}"), g.bin("sepby", pair, comma))
    lit = g.fmap(g.alt(g.lit("true"), g.lit("null")))
    alts = [num, lst, obj, lit]
    rng.shuffle(alts)
    g.define(val, g.label(g.alt(*alts), "value") if rng.random() < 0.4 else g.alt(*alts))
    root = g.seql(val, g.eof()) if rng.random() < 0.8 else val

    def gen(d=0):
        x = rng.random()
        if d > 3 or x < 0.3:
            return rng.choice(["0", "1", "10", "true", "null"])
        if x < 0.65:
            return "[" + ",".join(gen(d + 1) for _ in range(rng.randint(0, 3))) + "]"
        return "{" + ",".join(rng.choice(["a", "b", "ab"]) + ":" + gen(d + 1)
                              for _ in range(rng.randint(0, 2))) + "}"
    return g, root, gen, list("[]{},:01a")


def expr(rng):
    """Arithmetic with left- and right-associative operators, parentheses and recovery."""
    g = G()
    e = g.delay()
    num = g.label(g.rex("plus", "01"), "number") if rng.random() < 0.5 else g.sat("0", "1")
    if rng.random() < 0.6:
        num = g.rwith(num)
    close = g.sym(")")
    if rng.random() < 0.4:
        close = g.un("recover", close)
    atom = g.alt(num, g.between(g.sym("("), close, e))
    k1, k2 = rng.choice([("chainl1", "chainr1"), ("chainl1", "chainl1"), ("chainr1", "chainl1")])
    power = g.bin(k2, atom, g.fmap(g.sym("^")))
    term = g.bin("chainl1", power, g.fmap(g.alt(g.sym("*"), g.sym("/"))))
    g.define(e, g.bin(k1, term, g.fmap(g.label(g.sat("+", "-"), "operator"))))
    root = g.seql(e, g.eof())

    def gen(d=0):
        x = rng.random()
        if d > 4 or x < 0.35:
            return rng.choice("01")
        if x < 0.8:
            return gen(d + 1) + rng.choice("+-*/^") + gen(d + 1)
        return "(" + gen(d + 1) + ")"
    return g, root, gen, list("()+*^01")


def stmts(rng):
    """name '=' value ';' lists with attempt, labels and statement-level recovery."""
    g = G()
    name = g.label(g.rex("plus", "ab"), "name")
    val = g.label(g.rex("plus", "01"), "number")
    semi = g.sym(";")
    if rng.random() < 0.5:
        val = g.rwith(val)
    assign = g.apply(name, g.sym("="), val, semi)
    call = g.apply(name, g.sym("("), g.bin("sepby", val, g.sym(",")), g.sym(")"), semi)
    st = g.alt(g.un("attempt", assign), call) if rng.random() < 0.7 else g.alt(assign, call)
    if rng.random() < 0.4:
        st = g.un("recover", st)
    body = g.un("many", st)
    root = g.seql(body, g.eof())

    def gen(d=0):
        out = ""
        for _ in range(rng.randint(0, 4)):
            n = rng.choice(["a", "b", "ab"])
            if rng.random() < 0.5:
                out += n + "=" + rng.choice(["0", "11"]) + ";"
            else:
                out += n + "(" + ",".join(rng.choice("01") for _ in range(rng.randint(0, 3))) + ");"
        return out
    return g, root, gen, list("ab01=;(),")


def yaml_like(rng):
    """Nested lists and maps laid out by indentation (text)."""
    g = G()
    val = g.delay()
    nlsp = g.rex("plus", "\n ")
    ws = g.rex("star", "\n ")
    word = g.label(g.rex("plus", "ab"), "word")
    if rng.random() < 0.4:
        word = g.rwith(word)
    item = g.un("aligned", g.seqr(g.lit("- "), g.seql(val, ws)))
    lst = g.un("block", g.seq(item, g.un("many", item)))
    pair = g.un("aligned", g.seq(g.un("attempt", g.seql(word, g.lit(":"))), g.seqr(nlsp, g.seql(val, ws))))
    mp = g.un("block", g.seq(pair, g.un("many", pair)))
    alts = [lst, g.un("attempt", mp) if rng.random() < 0.6 else mp, word]
    g.define(val, g.alt(*alts))
    root = g.seql(val, g.eof())

    def gen(d=0, col=0):
        x = rng.random()
        if d > 2 or x < 0.3:
            return rng.choice(["a", "b", "ab"])
        if x < 0.65:
            sep = "\n" + " " * col
            return sep.join("- " + gen(d + 1, col + 2) for _ in range(rng.randint(1, 3)))
        out = []
        for _ in range(rng.randint(1, 2)):
            w = rng.choice(["a", "b"])
            if rng.random() < 0.5:
                out.append(w + ": " + gen(d + 1, col + len(w) + 2))
            else:
                out.append(w + ":\n" + " " * (col + 2) + gen(d + 1, col + 2))
        return ("\n" + " " * col).join(out)
    return g, root, gen, list("ab- :\n")


def offside(rng):
    """Token-based nested blocks: 'h' heads open a block indented by d columns."""
    g = G("lex")
    d = rng.choice([1, 2])
    st = g.delay()
    head = g.tok("h")
    leaf = g.tok("a") if rng.random() < 0.5 else g.tokins("a")
    block = g.add("indented", n=d, a=g.seq(g.un("aligned", st), g.un("many", g.un("aligned", st))))
    g.define(st, g.alt(g.seq(head, block if rng.random() < 0.6 else g.un("maybe", block)), leaf))
    root = g.seql(g.un("block", g.un("many", g.un("aligned", st))), g.eof())

    def gen(depth=0, col=0):
        """-> list of (token, column) lines"""
        out = []
        for _ in range(rng.randint(1, 3)):
            if depth < 3 and rng.random() < 0.45:
                out.append(("h", col))
                out += gen(depth + 1, col + d)
            else:
                out.append(("a", col))
        return out
    return g, root, gen, ["h", "a"]


TEXT = [json_like, expr, stmts, yaml_like]
