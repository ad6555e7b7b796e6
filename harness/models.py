"""Configurations of spec/MC.tla (exhaustive small-scope exploration) and replay of its cases into the library."""
from build import Env
from record import Limit, Rec, call_parse, guarded, outcome, unelem

INV = ["Judged", "Ends_", "InRange", "Allowance", "LocationsTrue", "ErrorsLocated", "PlainNeverRepairs",
       "RepairsWellFormed", "NoRecoveryBeforeConsuming", "ConsumedMeansMoved"]


def S(xs):
    return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + "}"


def M(leaves, unaries, binaries, focus, n, alpha=("a", "b"), ln=2, km="plain", mis=(0, 1, 2), ends=("eof",), watch=False, laws=(), styles=(), deep=True, live=False):
    return dict(styles=styles, deep=deep, live=live, leaves=leaves.split(), unaries=unaries.split(), binaries=binaries.split(), focus=focus.split(),
                n=n, alpha=alpha, ln=ln, km=km, mis=mis, ends=ends, watch=watch, laws=laws)


def cfg(m, printing=True):
    return """SPECIFICATION %s
CONSTANTS
  Graph <- MCGraph
  Input <- MCInput
  Leaves = %s
  Unaries = %s
  Binaries = %s
  Focus = %s
  MaxNodes = %d
  Alphabet = %s
  MaxLen = %d
  KM = "%s"
  MIs = %s
  Ends = %s
  Printing = %s
  LawSet = %s
  Watch = %s
  Deep = %s
INVARIANTS %s
%sCHECK_DEADLOCK FALSE
""" % ("FairSpec" if m["live"] else "Spec", S(m["leaves"]), S(m["unaries"]), S(m["binaries"]), S(m["focus"]), m["n"],
       S(m["alpha"]), m["ln"], m["km"], S(m["mis"]), S(m["ends"]), "TRUE" if printing else "FALSE", S(m["laws"]), "TRUE" if m["watch"] else "FALSE", "TRUE" if m["deep"] else "FALSE", " ".join(INV),
       "PROPERTIES Terminates\n" if m["live"] else "")


# property -> (quick models, thorough models)
LAWS = ("altassoc", "altcossa", "seqassoc", "seqcossa", "twice", "relabel", "purefirst", "purelast", "bindpure",
        "delay", "maybealt", "betweendef", "sepbydef", "manydef", "fmapalt", "fmapseq", "fmapswap",
        "blockaligned", "blockindented", "pick", "bindseq")

WRAP = ("purefirst", "purelast", "bindpure", "delay")
OTHER = tuple(w for w in LAWS if w not in WRAP)

MODELS = {
    "C01": ([M("a b pure", "maybe attempt", "alt seq", "alt maybe attempt", 5),
             M("a b dup", "attempt", "alt seq", "attempt", 6, ends=("",), mis=(1,)),
             M("a pre side star", "attempt", "alt seq", "alt attempt", 5, ends=("",), mis=(1,))],
            [M("a b pure", "maybe attempt", "alt seq", "alt maybe attempt", 6),
             M("a b dup", "maybe attempt", "alt seq", "alt maybe attempt", 6, ends=("",), mis=(1,)),
             M("a b pure eof", "maybe attempt many", "alt seq", "alt maybe attempt", 5, ln=3, ends=("", "eof")),
             M("a b aself", "maybe attempt", "alt seq", "alt maybe attempt", 7)]),
    "C02": ([M("a b pure", "fmap", "seq seql seqr then bind", "seq seql seqr then bind fmap", 5, ln=3, mis=(0, 1))],
            [M("a b pure", "fmap", "seq seql seqr then bind", "seq seql seqr then bind fmap", 6, ln=3, mis=(0, 1)),
             M("a b sat litab plus pure", "fmap maybe", "seq seql seqr then bind", "seq seql seqr then bind fmap", 5, ln=3)]),
    "C03": ([M("a b", "many fmap", "sepby seq", "many sepby", 5, ln=3, mis=(0, 1)),
             M("a b", "fmap", "chainl1 chainr1", "chainl1 chainr1", 5, ln=5, mis=(0, 1))],
            [M("a b", "many fmap", "sepby seq alt", "many sepby", 5, ln=4),
             M("a b", "many maybe", "seq alt", "many", 6, ln=3),
             M("a b", "fmap", "chainl1 chainr1 seql", "chainl1 chainr1", 6, ln=5, mis=(0, 2))]),
    "C04": ([M("a b pure", "attempt recover rwith", "alt seq", "recover rwith alt", 5, mis=(0, 1, 2)),
             M("a litab star", "many rwith", "alt seq", "many alt rwith", 4, ln=3, mis=(0, 1, 5)),
             M("a b dup", "attempt maybe", "seq", "attempt", 6, ends=("",), mis=(1,)),
             M("a b dup", "attempt rwith", "alt seq", "rwith", 5, ends=("",), mis=(1,))],
            [M("a b pure", "attempt recover rwith", "alt seq", "recover rwith alt", 6, mis=(0, 1, 2)),
             M("a b dup", "attempt maybe many", "seq", "attempt", 6, ends=("",), mis=(0, 1, 3)),
             M("a b dup", "attempt rwith", "alt seq", "rwith", 6, ends=("",), mis=(1,)),
             M("a b litab star", "many rwith maybe", "alt seq sepby", "many alt rwith", 5, ln=3, mis=(0, 1, 5))]),
    "C05": ([M("a b", "recover rwith maybe", "alt seq", "alt recover rwith maybe", 5, mis=(0, 1, 2)),
             M("a b unexp", "many label", "alt seq", "many label alt", 4, ln=3)],
            [M("a b eof", "recover rwith maybe", "alt seq", "alt recover rwith maybe", 6, mis=(0, 1, 2)),
             M("a b unexp litab", "many label rwithfn", "alt seq sepby", "many label alt", 5, ln=3)]),
    "C06": ([M("a b", "many rwith", "alt seq", "many rwith alt seq", 5, ln=3, mis=(0, 1, 2))],
            [M("a b", "many rwith recover", "alt seq", "many rwith alt seq", 6, ln=3, mis=(0, 1, 2)),
             M("a litab plus", "many maybe rwithfn", "alt seq sepby", "many alt seq", 5, ln=4, mis=(0, 1, 2))]),
    "C07": ([M("a b", "maybe rwith", "seq", "seq", 6, ln=2, mis=(0, 1, 2, 3)),
             M("a", "many", "seq alt", "seq", 7, alpha=("a",), ln=2, mis=(0, 1, 2, 3)),
             M("a b", "attempt", "seq bind", "bind", 7, ln=2, ends=("",), mis=(0, 1, 2, 3)),
             M("a litab plus", "recover", "seq sepby", "seq sepby", 5, ln=3, mis=(0, 1, 2))],
            [M("a b", "maybe rwith", "seq alt", "seq", 6, ln=2, mis=(0, 1, 2, 3)),
             M("a b", "many", "seq", "seq", 9, ln=2, mis=(0, 1, 2, 3, 4)),
             M("a", "many rwith", "seq alt", "seq", 8, alpha=("a",), ln=2, mis=(0, 1, 2, 3))]),
    "C08": ([M("a b", "recover rwith", "alt seq", "alt", 6, ln=2, mis=(1, 2)),
             M("a sat", "rwith", "bind", "bind", 5, alpha=("a", "b", "c"), ends=("",), mis=(1, 2))],
            [M("a b", "recover rwith", "alt seq", "alt", 7, ln=2, mis=(1, 2)),
             M("a b", "recover many", "alt seq", "alt", 6, ln=3, mis=(1, 5)),
             M("a litab tok", "recover rwith", "alt seq sepby", "alt sepby", 5, ln=3, mis=(1, 5)),
             M("a b", "attempt rwith", "alt seq", "attempt", 7, ends=("",), mis=(1,)),
             M("a sat", "rwith recover", "bind alt", "bind", 6, alpha=("a", "b", "c"), ends=("",), mis=(1, 2))]),
    "C09": ([M("a NL litnl ws", "many", "seq alt", "seq alt many", 4, alpha=("a", "NL"), ln=4, km="text", mis=(0, 2)),
             M("a b", "maybe block", "seq alt", "seq", 4, ln=2, km="lex", mis=(1,))],
            [M("a NL litnl ws trail", "many maybe", "seq alt", "seq alt many", 5, alpha=("a", "NL"), ln=4, km="text", mis=(0, 2)),
             M("a NL TAB ws", "many", "seq alt", "seq alt many", 4, alpha=("a", "NL", "TAB"), ln=4, km="tab", mis=(0, 2)),
             M("a b", "maybe block many", "seq alt", "seq", 4, ln=3, km="lex", mis=(0, 1, 2))]),
    "C10": ([M("a b sat", "label maybe many", "alt seq", "label maybe many", 5, mis=(0, 1)),
             M("a unexp pure", "label", "alt seq bind", "alt seq label", 5, ln=1, mis=(0, 1))],
            [M("a b", "label maybe many", "alt seq", "label maybe many", 6, mis=(0, 2)),
             M("a sat star eof unexp", "label attempt", "alt seq sepby bind", "alt seq label sepby", 5, mis=(0, 1))]),
    "C11": ([M("a b", "block aligned indented1", "seq alt", "block aligned indented", 4, ln=2, km="lex", mis=(0, 1)),
             M("a", "block aligned indented1 many", "seq", "block aligned indented", 4, alpha=("a",), ln=3, km="lex", mis=(0, 1)),
             M("a b", "aligned indented1", "seq", "indented", 5, ln=2, km="lex", mis=(1,))],
            [M("a b", "block aligned indented1 maybe", "seq alt", "block aligned indented", 5, ln=2, km="lex", mis=(0, 1)),
             M("a", "block aligned indented1 many", "seq alt", "block aligned indented", 5, alpha=("a",), ln=3, km="lex", mis=(0, 2)),
             M("a ws", "block aligned indented1 many", "seq", "block aligned indented", 6, alpha=("a", "NL"), ln=4, km="text", mis=(0, 1))]),
    "C14": ([M("a b aself undef", "maybe many", "seq alt", "delay", 6, ln=3, mis=(0, 1))],
            [M("a b aself undef", "maybe many attempt rwith", "seq alt seql", "delay", 6, ln=4, mis=(0, 1, 2)),
             M("b aself", "maybe fmap", "seq alt", "delay", 7, ln=4, mis=(0, 2))]),
    "C15": ([M("a pure star eof", "many maybe", "alt seq", "many", 4, mis=(0, 1, 2)),
             M("a pure undef", "many maybe attempt", "seq sepby", "many sepby delay", 4, mis=(0, 1)),
             M("a pure star", "many maybe", "alt seq", "many", 4, ln=1, mis=(0, 1), live=True)],
            [M("a pure star eof unexp", "many maybe attempt", "alt seq", "many", 5, ln=2, mis=(0, 1, 2)),
             M("a pure undef", "many maybe rwith", "seq sepby chainl1 alt", "many sepby chainl1 delay", 5, mis=(0, 1)),
             M("a pure star undef", "many maybe attempt", "alt seq sepby", "many", 5, ln=1, mis=(0, 1), live=True)]),
    "C16": ([M("a b pure", "rwith rwithfn", "seq alt", "rwith rwithfn", 5, ln=2, mis=(0, 1, 2)),
             M("a tokins tok", "rwithfn maybe", "seq alt", "tokins rwithfn", 4, ln=2, km="lex", mis=(0, 1, 2))],
            [M("a b pure", "rwith rwithfn many attempt", "seq alt", "rwith rwithfn", 5, ln=3, mis=(0, 1, 2)),
             M("a b", "rwith rwithfn recover", "seq alt", "rwith rwithfn", 6, ln=2, mis=(1, 2)),
             M("a tokins tok", "rwithfn maybe many", "seq alt sepby", "tokins rwithfn", 5, ln=2, km="lex", mis=(0, 1, 2))]),
    "C17": ([M("a sat litab eof pure unexp star plus trail opt pre side after ahead bol purefn", "attempt", "seq", "sym sat lit eof pure purefn unexp rex", 3,
               ln=3, mis=(0, 1), ends=("", "eof")),
             M("a tok tokins sat eof", "label", "seq", "sym tok tokins sat eof", 3, ln=2, km="lex", mis=(0, 1), ends=("", "eof")),
             M("a NL bol bof eol rest", "many", "seq", "rex", 3, alpha=("a", "NL"), ln=4, km="text", mis=(0, 1))],
            [M("a sat litab eof pure unexp star plus trail opt pre side after ahead bol purefn", "maybe", "seq alt", "sym sat lit eof pure purefn unexp rex", 4,
               ln=3, mis=(0, 1), ends=("", "eof")),
             M("litab plus trail after ahead bol opt", "many", "seq alt", "lit rex", 4, alpha=("a", "b"), ln=5, km="text", mis=(0, 2)),
             M("a NL bol bof eol rest ws", "many maybe", "seq alt", "rex", 4, alpha=("a", "NL"), ln=4, km="text", mis=(0, 1))]),
    "C20": ([M("a sat purefn", "fmap maybe attempt", "alt seq bind", "fmap bind sat purefn", 4, ln=2, mis=(0,), ends=("",), watch=True),
             M("sat b", "fmap many", "sepby chainl1 chainr1", "fmap chainl1 chainr1", 5, ln=4, mis=(0,), ends=("",), watch=True)],
            [M("a sat purefn", "fmap maybe attempt many", "alt seq bind", "fmap bind sat purefn", 5, ln=2, mis=(0,), ends=("",), watch=True),
             M("sat b", "fmap many", "sepby chainl1 chainr1 seq alt", "fmap chainl1 chainr1", 5, ln=5, mis=(0,), ends=("",), watch=True)]),
    "C21": ([M("a b", "maybe many label recover rwith", "alt seqr", "alt seqr maybe many label recover", 4, mis=(1,), ends=("",), laws=OTHER),
             M("a b", "attempt recover", "alt", "alt", 5, mis=(1,), laws=("altassoc", "altcossa")),
             M("a b", "maybe", "seql seqr", "seql seqr", 5, mis=(1,), laws=("seqassoc", "seqcossa")),
             M("a b", "many recover fmap", "sepby alt", "sepby fmap", 4, mis=(1,), laws=OTHER),
             M("a tok", "block aligned indented1 fmap attempt", "alt seq", "block fmap", 4, alpha=("a",), km="lex", mis=(1,),
               ends=("",), laws=OTHER),
             M("a sat eof", "maybe many label recover rwith attempt", "alt seq", "alt seq maybe many label recover rwith attempt", 3, mis=(0, 2), ends=("",), laws=WRAP)],
            [M("a b", "maybe many label recover rwith attempt", "alt seqr seql", "alt seqr seql maybe many label recover attempt", 4, mis=(0, 1, 2), ends=("",), laws=LAWS),
             M("a b", "maybe recover label", "alt seqr", "alt seqr", 5, ln=2, mis=(1,), ends=("",), laws=OTHER),
             M("a b eof", "many recover fmap label", "sepby alt seql", "sepby fmap", 4, mis=(0, 2), laws=LAWS),
             M("a tok", "block aligned indented1 fmap attempt", "alt seq", "block aligned indented fmap", 4, km="lex", alpha=("a",), mis=(1,),
               ends=("",), laws=LAWS)]),
    "C22": ([M("a tokins tok", "many recover block", "seq alt", "tokins tok", 4, ln=2, km="lex", mis=(0, 1)),
             M("a tok", "block aligned indented1", "seq", "block aligned indented", 4, alpha=("a",), ln=3, km="lex", mis=(1,))],
            [M("a tokins tok", "many recover maybe", "seq alt sepby", "tokins tok", 5, ln=2, km="lex", mis=(0, 1, 2)),
             M("a tokins", "block aligned indented1 many", "seq alt", "block aligned indented", 5, alpha=("a",), ln=3, km="lex", mis=(0, 2))]),
    "C24": ([M("a NL litnl ws", "many block", "seq alt", "seq alt many block", 4, alpha=("a", "NL"), ln=3, km="tab", mis=(0, 2)),
             M("a b litab plus", "rwith recover maybe", "alt seq", "rwith", 4, km="abs", mis=(0, 1))],
            [M("a NL TAB ws", "many block aligned", "seq alt", "seq alt many block", 5, alpha=("a", "NL", "TAB"), ln=3, km="tab", mis=(0, 2)),
             M("a b litab plus eof", "rwith recover maybe many", "alt seq", "rwith many", 5, km="abs", mis=(0, 1))]),
    "C23": ([M("a b pure", "maybe many attempt recover label rwith rwithfn fmap", "alt seq seql seqr then sepby bind", "alt", 4, ln=1, mis=(0, 1), styles=(0, 1)),
             M("a b pure", "maybe many attempt recover label rwith rwithfn fmap", "alt seq seql seqr then sepby bind chainl1 chainr1",
               "sym", 3, mis=(0, 1), styles=tuple(range(6)))],
            [M("a b pure", "maybe many attempt recover label rwith rwithfn fmap", "alt seq seql seqr then sepby bind", "sym", 4, ln=2, mis=(0, 1), styles=(0, 1, 2)),
             M("a b", "fmap", "chainl1 chainr1 seq", "chainl1 chainr1", 5, ln=3, mis=(0, 2), styles=tuple(range(6))),
             M("a b", "block aligned indented0 indented1 maybe", "seq alt", "block aligned indented", 4, ln=2, km="lex", mis=(1,), styles=(0, 1, 2))]),
    "C18": ([M("a b sat", "label rwith fmap", "alt seq", "label fmap", 4, ln=3, mis=(0, 1, 2)),
             M("a b", "many fmap", "alt seq", "fmap", 5, ln=3, mis=(0, 2))],
            [M("a b sat unexp", "label rwith fmap", "alt seq", "label fmap", 5, ln=3, mis=(0, 1, 2))]),
}


def stream_of(case, style):
    mode = "lex" if case["km"] == "lex" else "char"
    xs = [unelem(e) for e in case["i"]]
    if mode == "char" and (style % 3 == 0 or case["km"] != "plain" or any(n["k"] in ("lit", "rex") for n in case["g"])):
        return "".join(xs), mode
    return (tuple(xs) if style % 2 else xs), mode


def arena(case, base=False):
    """Delay nodes with n = 1 stand for the whole grammar, the others stay undefined."""
    root = case["r"]
    if base:
        return [dict(n, a=root) if n["k"] == "delay" and n["n"] == 1 else n for n in case["b"]]
    return [dict(n, a=root) if n["k"] == "delay" and n["n"] == 1 else n for n in case["g"]]


def observe(case, style, base=False):
    """The outcomes of a printed case, in the real library."""
    env = Env(arena(case, base), "lex" if case["km"] == "lex" else "char", style)
    root = case["r"]
    stream, _ = stream_of(case, style)
    out, calls = [], True
    for rec, mi, us in [(False, 0, (False,))] + [(True, mi, (False, True)) for mi in case["mis"]]:
        env.calls = [] if case["w"] else None
        kind, r = guarded(call_parse, env.p[root], stream, case["km"], rec, mi if rec else 5, style)
        if case["w"] and (not rec or case["o"][0]["k"] == "val"):
            calls = calls and env.calls == case["u"]
        env.calls = None
        for u in us:
            out.append(outcome(*(guarded(r.unwrap, recover=u) if kind == "ok" else (kind, r))))
        if Limit.hangs:
            break
    return out, calls              # whether the calls were as specified


def moved(g, d):
    """Arena g with its nodes numbered from d + 1 on."""
    def m(x):
        return x + d if x else 0
    return [dict(nd, a=m(nd["a"]), b=m(nd["b"]), c=m(nd["c"]), ks=[m(x) for x in nd["ks"]]) for nd in g]


def same(want, got):
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        if w["k"] != g["k"] or w["k"] == "val" and w["v"] != g["v"]:
            return False
        if w["k"] == "err" and (w["m"] != g["m"] or len(w["e"]) != len(g["e"]) or
                                any(x[f] != y[f] for x, y in zip(w["e"], g["e"]) for f in x)):
            return False
    return True


def differs(arg):
    """Replays one case: True if the library does not do what the specification did."""
    case, style = arg
    if Limit.hangs >= 2:
        return False               # enough has been seen
    for base in (False, True) if case["b"] else (False,):
        out, calls = observe(case, style, base)
        if not calls or not same(case["o"], out):
            return True
    return False


def session(arg):
    """The case as a recorded session, to be judged by spec/Trace.tla."""
    case, style = arg
    stream, mode = stream_of(case, style)
    n = len(case["b"])
    R = Rec(arena(case, True) + moved(arena(case), n) if n else arena(case), mode, style, tag="case")
    R.calls = case["w"]
    i = R.add(stream)
    for mi in case["mis"]:
        if n:
            R.law(n, [case["law"]], case["r"], case["r"] + n, i, mi, case["km"])
        else:
            R.both(case["r"], i, mi, case["km"])
    return R.session()
