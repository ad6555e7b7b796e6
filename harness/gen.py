"""Random grammar arenas and inputs.

Left recursion is impossible by construction.  Bodies of repetitions accept the empty string only with
probability nullable_many (that misuse is one of the behaviours under study)."""
from build import DIGITS, LETTERS, RAW, node

ALPHA = ["a", "b", "c"]
# what bind callbacks dispatch on for values that are neither text nor tokens
RAWKEY = dict(none="none", el="list", i0="int", i1="int", i7="int", false="bool", true="bool", es="", et="tup", t2="a")

# relative weights of composite kinds; profiles override them
WEIGHTS = dict(seq=18, seql=6, seqr=6, alt=18, maybe=6, many=8, attempt=5, label=5, recover=3, rwith=4,
               rwithfn=2, fmap=6, bind=3, sepby=3, chainl1=2, chainr1=2, between=3, tup=3, apply=2,
               block=0, aligned=0, indented=0, delay=3, idiom=8)
LEAVES = dict(sym=40, sat=20, tok=0, tokins=0, letter=0, digit=0, lit=0, rex=0, eof=5, pure=8, purefn=4,
              purelist=1, unexp=2)


ODD = ["50%", "%s %d", "{}", "{0.x}", "a or b", "x, y", "'q'", "back\\n", "two\nlines", "\u00e9"]


class Gen:
    def __init__(self, rng, mode="char", alpha=ALPHA, w=None, lv=None, nullable_many=0.02, rawpure=0.1,
                 boom=0.0, spaces=False, emptylabel=0.0, share=0.08, odd=0.005):
        self.r = rng
        self.mode = mode
        self.alpha = list(alpha)
        self.nodes = []
        self.tag = 0
        self.w = dict(WEIGHTS, **(w or {}))
        self.lv = dict(LEAVES, **(lv or {}))
        if mode == "lex":
            self.lv.setdefault("tok", 0)
        if mode != "lex":
            self.lv["tokins"] = 0
        if mode in ("char", "raw"):
            self.lv["tok"] = 0
        if mode != "char":
            for k in ("lit", "rex", "letter", "digit"):
                self.lv[k] = 0
        self.nullable_many = nullable_many
        self.rawpure = rawpure
        self.boom = boom
        self.emptylabel = emptylabel
        self.share = share
        self.odd = odd
        self.done = []                # (node, nullable): may be used again
        self.delays = []

    def add(self, k, **kw):
        self.nodes.append(node(k, **kw))
        return len(self.nodes)

    def t(self):
        self.tag += 1
        return self.tag

    def pick(self, table, allowed):
        ks = [k for k in table if allowed(k) and table[k] > 0]
        return self.r.choices(ks, [table[k] for k in ks])[0] if ks else None

    # ------------------------------------------------------------------ leaves
    def kd(self, v):
        if self.mode == "char":
            return v
        if self.mode == "raw":
            return "raw" if v in RAW else v
        return "k" + v

    def sym(self, v=None, label=None):
        if v is None:
            v = self.r.choice(self.alpha)
            if self.mode == "char" and self.r.random() < self.odd:    # no element of a text is ever equal to these
                v = self.r.choice([v + v, "", self.alpha[0] + self.alpha[1]])
        if self.mode == "char":
            d = repr(v)
        elif self.mode == "raw":
            d = repr(RAW[v]) if v in RAW else repr(v)
        elif self.mode == "obj":
            d = "<%s:%s>" % (self.kd(v), v)
        else:
            d = "Token(kind=%r, value=%r)" % (self.kd(v), v)
        return self.add("sym", s=self.kd(v), v=v, l=d if label is None else label,
                        n=0 if self.mode in ("char", "raw") else 1)

    def anylabel(self, s):
        x = self.r.random()
        return "" if x < self.emptylabel else self.r.choice(ODD) if x > 0.94 else s

    NULLABLE_LEAVES = ("eof", "pure", "purefn", "purelist")

    def leaf(self, nonnull=False):
        """-> (node, nullable)"""
        r = self.r
        k = self.pick(self.lv, lambda k: not (nonnull and k in self.NULLABLE_LEAVES)) or "sym"
        if k == "sym":
            x = r.random()
            return self.sym(label=None if x < 0.7 else self.anylabel(r.choice(["L1", "L2"]))), False
        if k == "sat":
            n = r.randint(1, max(1, len(self.alpha) - 1))
            i = self.add("sat", ts=sorted(r.sample(self.alpha, n)), n=int(r.random() < self.boom))
            if r.random() < 0.6:
                i = self.add("label", a=i, l=self.anylabel("S%d" % i))
            return i, False
        if k == "tok":
            v = self.kd(r.choice(self.alpha))
            return self.add("tok", s=v, l=v), False
        if k == "tokins":
            v = self.kd(r.choice(self.alpha))
            return self.add("tokins", s=v, v="z", l=v), False
        if k == "letter":
            return self.add("letter", ts=LETTERS, l="letter"), False
        if k == "digit":
            return self.add("digit", ts=DIGITS, l="digit"), False
        if k == "lit":
            ts = [r.choice(self.alpha) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            return self.add("lit", ts=ts, l=repr("".join(ts))), False
        if k == "rex":
            forms = ["plus", "one", "trail", "after", "all", "ahead", "bol", "bof", "eol", "eol", "rest", "opt", "pre", "pre", "either", "side"]
            s = r.choice(forms if nonnull else forms + ["star"])
            ts = sorted(r.sample(self.alpha, r.randint(1, min(2, len(self.alpha)))))
            rest = [c for c in self.alpha if c not in ts] or ["x"]
            if r.random() < 0.08:         # one expression, two groups of it
                v = r.choice(rest)
                f1, f2 = r.sample(["trail", "all"], 2)
                i = self.add("rex", ts=ts, s=f1, v=v)
                i = self.add("seq", a=i, b=self.sym())
                self.add("pure", n=self.t())
                j = self.add("rex", ts=ts, s=f2, v=v)      # same spelling: numbers of the same parity
                return self.add("seq", a=self.add("maybe", a=self.add("attempt", a=i)), b=j), False
            i = self.add("rex", ts=ts, s=s, v=r.choice(rest))
            if r.random() < 0.5:
                i = self.add("label", a=i, l=self.anylabel("R%d" % i))
            return i, s == "star"
        if k == "eof":
            return self.add("eof", l="end of file"), True
        if k in ("pure", "purefn"):
            code = ""
            if r.random() < self.rawpure:
                code = r.choice(["none", "i0", "i7", "false", "es", "et", "t2", "sx", "ls", "lt"])
            return self.add(k, n=self.t(), s=code), True
        if k == "purelist":
            return self.add("purelist"), True
        return self.add("unexp", l=self.anylabel("U%d" % self.t())), False

    # -------------------------------------------------------------- composites
    NULLABLE = ("maybe", "many", "sepby")

    def gen(self, d, nonnull=False):
        """-> (node, nullable).  nonnull: the result must not accept the empty string."""
        r = self.r
        if r.random() < self.share:
            old = [x for x in self.done[-12:] if not (nonnull and x[1])]
            if old:
                return r.choice(old)
        x = self.fresh(d, nonnull)
        self.done.append(x)
        return x

    def fresh(self, d, nonnull):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf(nonnull)
        k = self.pick(self.w, lambda k: not (nonnull and k in self.NULLABLE + ("delay",)) and
                      not (k == "delay" and d < 2))
        if k is None:
            return self.leaf(nonnull)
        return self.comp(k, d, nonnull)

    def comp(self, k, d, nonnull=False):
        r = self.r
        if k in ("seq", "seql", "seqr"):
            if r.random() < 0.5:
                a, na = self.gen(d - 1, nonnull)
                b, nb = self.gen(d - 1)
            else:
                a, na = self.gen(d - 1)
                b, nb = self.gen(d - 1, nonnull)
            return self.add(k, a=a, b=b), na and nb
        if k == "alt":
            a, na = self.gen(d - 1, nonnull)
            b, nb = self.gen(d - 1, nonnull)
            return self.add("alt", a=a, b=b), na or nb
        if k == "maybe":
            a, _ = self.gen(d - 1)
            return self.add("maybe", a=a), True
        if k == "many":
            a, na = self.gen(d - 1, r.random() >= self.nullable_many)
            return self.add("many", a=a), True
        if k in ("attempt", "recover"):
            a, na = self.gen(d - 1, nonnull)
            return self.add(k, a=a), na
        if k == "label":
            a, na = self.gen(d - 1, nonnull)
            return self.add("label", a=a, l=self.anylabel("L%d" % self.t())), na
        if k in ("rwith", "rwithfn"):
            a, na = self.gen(d - 1, nonnull)
            s = "I%d" % self.t()
            if r.random() < (self.rawpure if k == "rwith" else 0.5 * self.rawpure):
                code = r.choice(["none", "i0", "es", "et", "false", "sx", "sx", "ls", "lt"])
                return self.add(k, a=a, s=s, v=code, n=self.tag,
                                l=repr(RAW[code]) if r.random() < 0.5 else self.anylabel("J%d" % self.tag)), na
            if k == "rwithfn" and r.random() < 0.25:
                return self.add(k, a=a, s="@", n=self.tag, l="@"), na
            return self.add(k, a=a, s=s, n=self.tag,
                            l=s if r.random() < 0.5 else self.anylabel("J%d" % self.tag)), na
        if k == "fmap":
            a, na = self.gen(d - 1, nonnull)
            x = r.random()
            if x < 0.3 * self.rawpure:
                return self.add("fmap", a=a, n=self.t(), s="raw", v=r.choice(["none", "i0", "false", "es", "et", "el"])), na
            if x > 1 - 0.5 * self.boom:
                return self.add("fmap", a=a, n=self.t(), s="boom", v=self.bindkey(r.choice(self.alpha))), na
            return self.add("fmap", a=a, n=self.t()), na
        if k == "bind":
            a, na = self.gen(d - 1, nonnull)
            ks, ts = [], []
            for v in self.alpha[:2]:
                if self.bindkey(v) not in ts:
                    ts.append(self.bindkey(v))
                    ks.append(self.gen(d - 2)[0])
            b, _ = self.gen(d - 2)
            return self.add("bind", a=a, b=b, ts=ts, ks=ks), na
        if k in ("sepby", "chainl1", "chainr1"):
            a, _ = self.gen(d - 1, True)
            b, _ = self.gen(d - 1, r.random() < 0.5)
            if k != "sepby":
                b = self.add("fmap", a=b, n=self.t())
                if r.random() < 0.15:
                    c = self.add("fmap", a=self.gen(d - 1, True)[0], n=self.t(), s="rop",
                                 v=r.choice(["none", "i0", "false", "es", "et", "el", "i1"]))
                    b = self.add("alt", a=b, b=c) if r.random() < 0.5 else self.add("alt", a=c, b=b) if r.random() < 0.5 else c
            return self.add(k, a=a, b=b), k == "sepby"
        if k == "between":
            o, no = self.gen(d - 2, nonnull)
            p, np_ = self.gen(d - 1)
            c, nc = self.gen(d - 2)
            return self.add("between", a=o, b=c, c=p), no and np_ and nc
        if k in ("tup", "apply"):
            n = r.choice([2, 2, 3, 3, 4, 5, 6, 7, 8])
            cur, nul = self.gen(d - 2, nonnull)
            for j in range(n - 1):
                q, nq = self.gen(d - 2 if n < 5 else 0)
                cur = self.add("thenN" if j else "then", a=cur, b=q)
                nul = nul and nq
            if k == "apply":
                cur = self.add("apply", a=cur, n=self.t())
            return cur, nul
        if k in ("block", "aligned", "indented"):
            a, na = self.gen(d - 1, nonnull)
            return self.add(k, a=a, n=r.choice([0, 1, 1, 2, 2, 3, -1])), na
        if k == "idiom":
            return self.idiom(d, nonnull)
        if k in ("again", "prefix", "option", "guard", "annot", "inner", "stat", "default"):
            return self.idiom(d, nonnull, k)
        if k == "delay":
            # recursive rule, every recursive use guarded by a real token
            dl = self.add("delay")
            h = self.leaf(True)[0] if r.random() < 0.3 else self.sym()
            body, _ = self.gen(d - 2)
            core = self.add("seq", a=h, b=dl)
            if r.random() < 0.5:
                core = self.add("seql", a=core, b=self.leaf()[0])
            x = r.random()
            if x < 0.5:
                alt = self.add("alt", a=core, b=body)
            elif x < 0.8:
                alt = self.add("maybe", a=core)
            else:
                it = self.add("between", a=h, b=self.leaf(True)[0], c=dl)
                alt = self.add("many", a=it)
            self.nodes[dl - 1]["a"] = alt
            self.delays.append(dl)
            return dl, True
        raise ValueError(k)

    def comp_rw(self, a):
        s = "I%d" % self.t()
        return self.add(self.r.choice(["rwith", "rwithfn"]), a=a, s=s, n=self.tag, l=s if self.r.random() < 0.5 else "J%d" % self.tag)

    def seq_(self, *xs):
        k = self.r.choice(["seq", "seq", "seql", "seqr"])
        cur = xs[0]
        for x in xs[1:]:
            cur = self.add(k, a=cur, b=x)
        return cur

    def layout(self):
        return [k for k in ("block", "aligned", "indented") if self.w[k]]

    def wrap(self, i, *kinds):
        k = self.r.choice(kinds)
        if not k:
            return i
        if k == "rwith":
            return self.add("rwith", a=i, s="I%d" % self.t(), n=self.tag, l="I%d" % self.tag)
        if k == "label":
            return self.add("label", a=i, l="L%d" % self.t())
        if k == "fmap":
            return self.add("fmap", a=i, n=self.t())
        if k in ("indented", "block", "aligned"):
            return self.add(k, a=i, n=self.r.choice([0, 1, 1, 2, 2, 3, -1]))
        return self.add(k, a=i)

    def idiom(self, d, nonnull, k=None):
        """Combinations that ordinary grammars are full of."""
        r = self.r
        h = self.leaf(True)[0] if r.random() < 0.4 else self.sym()
        h2 = h if r.random() < 0.7 else self.gen(0, True)[0]
        x = self.gen(d - 2)[0]
        y = self.gen(d - 2)[0]
        s = self.sym()
        k = k or r.choice(["prefix", "prefix", "option", "option", "rest", "trailing", "closed", "stat", "stat", "twice", "guard",
                      "annot", "run", "inner", "inner", "again", "again", "again", "default", "default"])
        if nonnull and k in ("rest", "trailing", "stat", "inner"):
            k = "prefix"
        if k == "prefix":         # alternatives that share how they begin
            first = self.wrap(self.seq_(h, x), "attempt", "attempt", "", "recover")
            second = self.wrap(self.seq_(h2, y), "", "", "attempt", "rwith")
            return self.add("alt", a=first, b=second), False
        if k == "option":         # an optional part that begins like what follows it
            o = self.wrap(self.wrap(self.seq_(h, x), "attempt", "attempt", "attempt", "rwith"), "maybe", "many")
            return self.seq_(o, self.seq_(h2, y)), False
        if k == "rest":           # a list, then something that begins like the separator
            li = self.add("sepby", a=h, b=s)
            return self.seq_(li, self.add("maybe", a=self.seq_(s, x))), True
        if k == "trailing":
            li = self.add("sepby", a=self.wrap(h, "", "attempt", "rwith"), b=s)
            return self.seq_(li, self.add("maybe", a=s)), True
        if k == "closed":
            li = self.add(r.choice(["sepby", "many"]), a=h)
            if self.nodes[li - 1]["k"] == "sepby":
                self.nodes[li - 1]["b"] = s
            return self.add("between", a=self.sym(), b=self.wrap(self.sym(), "", "recover"), c=li), False
        if k == "stat":           # statements with a terminator
            body = self.seq_(self.add("alt", a=h, b=self.wrap(self.sym(), "", "rwith")), self.wrap(s, "", "recover", "rwith"))
            return self.wrap(self.wrap(body, "", "", "attempt", "recover", "label"), "many"), True
        if k == "twice":
            p = self.seq_(h, x)
            return self.seq_(p, self.wrap(p, "", "attempt", "fmap", "label")), False
        if k == "guard":          # what the first part decides
            ks, ts = [], []
            for v in self.alpha[:2]:
                if self.bindkey(v) in ts:
                    continue
                ts.append(self.bindkey(v))
                ks.append(self.seq_(*[self.sym() for _ in range(r.choice([1, 2, 3, 4]))]))
            b = self.seq_(self.sym(), x)
            return self.add("bind", a=h, b=b, ts=ts, ks=ks), False
        if k == "annot":          # recovery annotations on alternatives
            a = self.wrap(h, "recover", "rwith", "", "label")
            b = self.wrap(self.gen(max(0, d - 2), True)[0], "recover", "rwith", "", "label")
            c = self.wrap(s, "recover", "rwith", "")
            i = self.add("alt", a=a, b=b)
            return (self.add("alt", a=i, b=c) if r.random() < 0.5 else self.add("alt", a=c, b=i)), False
        if k == "again":          # one parser tried again where it was tried before, under other circumstances
            c = self.gen(d - 1)[0] if r.random() < 0.6 else self.add(
                "alt", a=self.wrap(self.gen(d - 2)[0], "", *self.layout()), b=self.gen(0)[0])
            lay = self.layout() or ["label", "fmap", "maybe", "recover"]
            pre = [h] if nonnull or r.random() < 0.6 else []
            first = self.wrap(self.seq_(*pre, self.wrap(c, "", "", *lay), self.gen(0, not pre)[0]), "attempt", "attempt", "")
            second = self.seq_(*pre, self.wrap(c, "", *lay), self.gen(0, nonnull)[0])
            return self.add("alt", a=first, b=second), not pre
        if k == "default":        # a default value for something that begins with parts that may be absent
            opt = self.wrap(self.wrap(self.leaf(True)[0], "", "label"), "maybe", "maybe", "many")
            ka = self.wrap(self.seq_(opt, self.wrap(h, "", "", "recover", "label")), "", "", "", "attempt", "fmap", "label")
            ka = self.add("seq", a=self.add("pure", n=self.t()), b=ka) if r.random() < 0.15 else ka
            i = self.comp_rw(ka)
            return (self.seq_(i, y) if r.random() < 0.5 else self.wrap(i, "", "label", "recover")), False
        if k == "run":
            n = r.choice([2, 3, 4, 6, 8])
            return self.seq_(*[self.wrap(self.sym(), "", "", "", "rwith", "recover") for _ in range(n)]), False
        p = self.wrap(self.seq_(h, self.wrap(self.seq_(s, x), "attempt", "maybe", "many", "label", "recover")), "attempt", "label",
                      "recover", "fmap", "rwith")
        return self.add("many", a=p), True

    def bindkey(self, v):
        if self.mode == "raw":
            return RAWKEY.get(v, v)
        return v if self.mode == "char" else self.kd(v) + ":" + v

    def root(self, d, eof=0.6):
        i, _ = self.gen(d)
        if self.r.random() < eof:
            e = self.add("eof", l="end of file")
            i = self.add("seql", a=i, b=e)
        return i

    def rooted(self, k, d, eof=0.5):
        """A grammar whose root (under an optional eof) is the given kind."""
        i, _ = self.comp(k, d)
        if self.r.random() < eof:
            e = self.add("eof", l="end of file")
            i = self.add("seql", a=i, b=e)
        return i


def sentence(rng, nodes, root, maxlen, forced=None):
    """A sentence walked out of the grammar (best effort)."""
    out = []
    budget = [200]

    def walk(i, depth):
        if budget[0] <= 0 or len(out) > maxlen:
            return
        budget[0] -= 1
        nd = nodes[i - 1]
        k = nd["k"]
        if k == "sym":
            out.append(nd["v"])
        elif k in ("tok", "tokins"):
            out.append(nd["s"][1:])
        elif k in ("sat", "letter", "digit"):
            out.append(rng.choice(nd["ts"]))
        elif k == "lit":
            out.extend(nd["ts"])
        elif k == "rex":
            out.append(rng.choice(nd["ts"]))
            if nd["s"] == "opt" or nd["s"] == "pre" and rng.random() < 0.5:
                out.append(nd["v"])
            elif nd["s"] == "either" and rng.random() < 0.4:
                out[-1] = nd["v"]
            elif nd["s"] in ("plus", "trail", "all") and rng.random() < 0.5:
                out.append(rng.choice(nd["ts"]))
            if nd["s"] in ("trail", "all") and rng.random() < 0.5:
                out.append(nd["v"])
        elif k == "alt":
            walk(rng.choice([nd["a"], nd["b"]]), depth + 1)
        elif k == "maybe":
            if rng.random() < 0.6:
                walk(nd["a"], depth + 1)
        elif k == "many":
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                walk(nd["a"], depth + 1)
        elif k in ("seq", "seql", "seqr", "then", "thenN"):
            walk(nd["a"], depth + 1)
            walk(nd["b"], depth + 1)
        elif k == "bind":
            at = len(out)
            walk(nd["a"], depth + 1)
            went = {RAWKEY.get(out[at], out[at]), "k%s:%s" % (out[at], out[at])} if at < len(out) else set()
            to = [k for t, k in zip(nd["ts"], nd["ks"]) if t in went] or [nd["b"]]
            walk(to[0] if rng.random() < 0.9 else rng.choice([nd["b"]] + list(nd["ks"])), depth + 1)
        elif k in ("sepby", "chainl1", "chainr1"):
            n = rng.choice([1, 1, 2, 3])
            for j in range(n):
                if j:
                    walk(nd["b"], depth + 1)
                walk(nd["a"], depth + 1)
        elif k == "between":
            walk(nd["a"], depth + 1)
            walk(nd["c"], depth + 1)
            walk(nd["b"], depth + 1)
        elif k == "delay":
            if depth < 25 and nd["a"]:
                walk(nd["a"], depth + 1)
        elif nd["a"]:
            walk(nd["a"], depth + 1)
    walk(root, 0)
    return out[:maxlen]


def damage(rng, out, alpha, maxlen, n=None, extra="x"):
    """Random insertions, deletions and replacements."""
    out = list(out)
    if n is None:
        n = rng.choice([0, 0, 1, 1, 1, 2, 2, 3])
    pool = list(alpha) + ([extra] if extra else [])
    for _ in range(n):
        x = rng.random()
        j = rng.randint(0, len(out))
        if x < 0.4:
            out.insert(j, rng.choice(pool))
        elif out and x < 0.8:
            out.pop(min(j, len(out) - 1))
        elif out:
            out[min(j, len(out) - 1)] = rng.choice(pool)
    return out[:maxlen]
