"""C12: split_tokens against spec/Lexer.tla."""
import random
import re

import models
import tlc
from record import R_lexer, guarded, jloc, text as plain

INV = "INVARIANTS TrueLocation TokensInOrder TokenIsMatch FailsOnlyWhenStuck SplitAsDefined\n"
CFG = "SPECIFICATION Spec\nCONSTANTS\n  Menu = %s\n  MaxAlts = %d\n  Chars = %s\n  MaxLen = %d\n" + INV + \
      "PROPERTIES Progress%s\nCHECK_DEADLOCK FALSE\n"
MENU = "as a1 bs abnl skip skipa star starnl q nest two tail lead after bol bos ahead eot look".split()
QUICK = [(MENU, 2, ["a", "b", "NL"], 4, "")]
DEEP = [(MENU, 2, ["a", "b", "NL"], 5, ""),
        ("a1 bs abnl skip starnl q two tail lead after eot".split(), 3, ["a", "b", "NL"], 4, ""),
        ("as a1 skip star q nest look".split(), 2, ["a", "b", "NL"], 3, " Terminates")]


def pattern(sp):
    out = []
    for al in sp:
        c = "[" + "".join(re.escape(x) for x in al["ts"]) + "]" if al["ts"] else "(?!)"
        v = re.escape(al["v"])
        g = lambda body, name=al["g"]: "(?P<%s>%s)" % (name, body) if name else "(?:%s)" % body
        f = al["f"]
        out.append({"plus": lambda: g(c + "+"), "one": lambda: g(c), "star": lambda: g(c + "*"),
                    "quoted": lambda: v + g(c + "*") + v,
                    "nest": lambda: g(v + "(?P<%s>%s*)" % (al["h"], c)),
                    "two": lambda: g(c + "+") + "(?P<%s>%s)" % (al["h"], v),
                    "tail": lambda: g(c + "+") + "(" + v + ")?",
                    "lead": lambda: g(c + "+") + "?" + v,
                    "after": lambda: "(?<=" + v + ")" + g(c + "+"),
                    "bol": lambda: "(?m:^)" + g(c + "+"), "bos": lambda: "^" + g(c + "+"),
                    "ahead": lambda: g(c + "+") + "(?=" + v + ")", "eot": lambda: g(c + "+") + r"\Z",
                    "look": lambda: "(?=" + v + ")"}[f]())
    return "|".join(out)


def call(sp, tx, raw=False):
    kind, r = guarded(split, "".join(c["v"] for c in tx), re.compile(pattern(sp)))
    z = {"p": 0, "l": 0, "c": 0}
    if kind != "ok":
        o = dict(k=kind, toks=[], loc=z, m="")
    elif isinstance(r, R_lexer.LexError):
        try:
            o = dict(k="lexerror", toks=[], loc=jloc(r.loc), m=str(r))
        except Exception as e:                # an error without its location
            o = dict(k="other:" + type(e).__name__, toks=[], loc=z, m="")
    elif type(r) is not list or any(type(t) is not R_lexer.Token for t in r):
        o = dict(k="other:result", toks=[], loc=z, m="")
    else:
        o = dict(k="tokens", loc=z, m="",
                 toks=[dict(k=plain(t.kind), v=plain(t.value), o=jloc(t.start), z=jloc(t.end)) for t in r])
    return (o, r) if raw else o


def split(tx, rx):
    try:
        return R_lexer.split_tokens(tx, rx)
    except R_lexer.LexError as e:
        return e


def differs(case):
    o = call(case["spec"], case["text"])
    if o["k"] != case["out"]:
        return True
    return o["loc"] != case["loc"] if o["k"] == "lexerror" else o["toks"] != case["toks"]


def session(case):
    return dict(sp=case["spec"], tx=case["text"], o=call(case["spec"], case["text"]))


CHARS = ["a", "b", "c", " ", "\n", "\n", "\t", "\r", "\"", "\u2028", "\x0b", "\u00e9"]


def draw(arg):
    seed, it = arg
    rng = random.Random("C12/%s/%d" % (seed, it))
    chars = rng.sample(CHARS, rng.randint(2, 5)) + ["\n"]
    long = rng.random() < 0.05            # stretches longer than any buffer
    sp = []
    for j in range(rng.randint(1, 5)):
        f = rng.choice(["plus", "plus", "one", "one", "star", "quoted", "nest", "two", "tail", "lead", "after", "bol", "bos",
                        "ahead", "eot", "look"] if rng.random() < 0.5 else ["plus", "one", "plus", "quoted", "two", "nest"])
        f = rng.choice(["plus", "plus", "quoted", "two", "lead", "nest", "tail", "ahead"]) if long else f
        ts = rng.sample(chars, rng.randint(1, min(3, len(chars))))
        ts = [] if f == "look" else sorted(set(ts))
        rest = [c for c in chars + ["z"] if c not in ts]
        named = rng.random() < 0.75 or f == "nest"
        sp.append(dict(f=f, g="G%d" % j if named and f != "look" else "", h="H%d" % j if f in ("nest", "two") else "",
                       ts=ts, v=rng.choice(rest)))
    if rng.random() < 0.6:                     # everything else is one token, or skipped
        sp.append(dict(f="plus" if long else "one", g=rng.choice(["REST", ""]), h="", ts=sorted(set(chars)), v=""))
    n = rng.choice([3, 6]) if long else rng.choice([0, 3, 6, 10, 16, 40])
    tx = []
    for _ in range(rng.randint(0, n)):
        x = rng.choice(chars + (["z"] if rng.random() < (0.005 if long else 0.05) else []))
        tx += [x] * rng.choice([1, 1, 2, 70, 270, 530] if long else [1, 1, 1, 2, 3])
    return dict(sp=sp, tx=[dict(v=c) for c in tx[:1100 if long else 60]])


def record(arg):
    d = draw(arg)
    return dict(d, o=call(d["sp"], d["tx"]))


def judge(check, calls, what):
    for j in range(0, len(calls), 4000):
        part = calls[j:j + 4000]
        vs, res = tlc.validate(part, module="LexTrace.tla", cfg="LexTrace.cfg")
        check.states += res["distinct"]
        check.transitions += res["states"]
        check.traces += len(part)
        for s, v in zip(part, vs):
            if v["bad"]:
                check.violation("%s on %r" % (what, "".join(c["v"] for c in s["tx"])), {c for _, c in v["bad"]},
                                dict(text=s["tx"], spec=s["sp"], observed=s["o"]))


def run(check):
    deep = check.tier == "thorough"
    for menu, alts, chars, n, live in DEEP if deep else QUICK:
        res = tlc.run("MCLexer.tla", CFG % (models.S(menu), alts, models.S(chars), n, live), timeout=850)
        if res["violated"]:
            raise tlc.TLCError("the specification itself violates %s" % res["violated"])
        cases = tlc.printed(res["out"], "CASE")
        check.states += res["distinct"]
        check.transitions += res["states"]
        check.traces += len(cases)
        got = check.spread(differs, cases, "replay of specification behaviours")
        wrong = sorted((c for c, d in got if d), key=lambda c: (len(c["spec"]), len(c["text"])))
        check.parts.append(dict(part="MCLexer.tla exhaustive", menu=menu, alternatives=alts, text_length=n,
                                states=res["distinct"], behaviours_replayed=len(cases), replays_that_differ=len(wrong)))
        if not check.samples:
            check.samples.append(cases[len(cases) // 2])
        if wrong:
            judge(check, [s for _, s in check.spread(session, wrong[:200], "case")], "case of MCLexer.tla")
    n = 40000 if deep else 4000
    calls = [c for _, c in check.spread(record, [(check.seed, it) for it in range(n)], "split_tokens")]
    judge(check, calls, "split_tokens")
    check.parts.append(dict(part="recorded calls validated by LexTrace.tla", calls=len(calls),
                            lexerrors=sum(c["o"]["k"] == "lexerror" for c in calls)))
    check.samples.append(calls[len(calls) // 2])
