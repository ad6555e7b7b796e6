#!/opt/venv/bin/python
"""Are the specification's own checks vacuous?  Plants one fault at a time in a copy of spec/ and reports what notices it:
TLC (an invariant: the layers of the specification disagree), or only the replay into the library.

usage: tools/specmutants.py [name ...]"""
import os
import re
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "harness"), os.environ.get("VERIF_REPO", "/repo") + "/src"]
sys.setrecursionlimit(10000)
import models  # noqa: E402
import tlc  # noqa: E402
from models import M  # noqa: E402

CFG = {
    "choice": M("a b pure", "maybe attempt", "alt seq", "alt maybe attempt", 5, mis=(0, 1)),
    "mix": M("a b litab sat", "maybe many attempt recover rwith label", "alt seq", "alt many maybe attempt recover rwith label", 4, mis=(0, 1, 2)),
    "many": M("a b", "many rwith", "alt seq", "many alt", 5, ln=3, mis=(0, 1)),
    "seqs": M("a b pure", "fmap", "seq seql seqr then bind", "seq seql seqr then bind fmap", 5, mis=(0, 1)),
    "lists": M("a b", "fmap many", "sepby chainl1 chainr1", "sepby chainl1 chainr1", 5, ln=4, mis=(0, 1)),
    "text": M("a NL litnl ws", "many", "seq alt", "seq alt many", 4, alpha=("a", "NL"), ln=3, km="text", mis=(0, 2)),
    "tab": M("a NL TAB litnl", "many", "seq alt", "seq alt many", 4, alpha=("a", "NL", "TAB"), ln=3, km="tab", mis=(0,)),
    "layout": M("a b", "block aligned indented1", "seq alt", "block aligned indented", 4, ln=2, km="lex", mis=(0, 1)),
    "mlayout": M("a", "block aligned indented1 many", "seq", "block aligned indented", 4, alpha=("a",), ln=3, km="lex", mis=(0, 1)),
    "marks": M("a b", "aligned indented1", "seq", "indented", 5, ln=2, km="lex", mis=(1,)),
    "alts": M("a b", "maybe", "alt", "alt", 5, mis=(1,), ends=("",), laws=("altassoc", "altcossa")),
    "rwith": M("a b pure", "rwith rwithfn", "seq alt", "rwith rwithfn", 5, mis=(0, 1, 2)),
    "toks": M("a tokins tok eof", "rwithfn maybe", "seq alt", "tokins rwithfn tok eof", 4, ln=2, km="lex", mis=(0, 1, 2)),
    "self": M("a b aself undef", "maybe many", "seq alt", "delay", 6, ln=3, mis=(0, 1)),
    "seq7": M("a b", "attempt", "seq bind", "bind", 7, ln=2, ends=("",), mis=(0, 1, 2)),
    "rex": M("a sat litab eof pure star plus trail opt pre side after ahead bol", "attempt", "seq", "sat lit eof rex", 3, ln=3, mis=(0, 1), ends=("", "eof")),
    "bindrec": M("a sat", "rwith", "bind", "bind", 5, alpha=("a", "b", "c"), ends=("",), mis=(1, 2)),
    "labels": M("a b sat", "label maybe many", "alt seq", "label maybe many", 5, mis=(0, 1)),
    "laws": M("a b", "maybe many label recover rwith", "alt seqr", "alt seqr maybe many label recover", 4, mis=(1,), ends=("",), laws=models.OTHER),
    "laws2": M("a b", "maybe", "seql seqr", "seql seqr", 5, mis=(1,), laws=("seqassoc", "seqcossa")),
    "laws3": M("a tok", "block aligned indented1 fmap attempt", "alt seq", "block fmap", 4, alpha=("a",), km="lex", mis=(1,), ends=("",), laws=models.OTHER),
}

MACHINE = "Machine.tla"
# name, module, old text, new text, configurations
MUTANTS = [
    ("alt1-no-commit", MACHINE, 'IF ret.k = "ok" \\/ ret.d THEN Leave(ret)\n              ELSE Resume([f |-> "alt2"', 'IF ret.k = "ok" THEN Leave(ret)\n              ELSE Resume([f |-> "alt2"', "choice"),
    ("alt2-no-commit", MACHINE, 'IF ret.d THEN Leave(ret)\n                 ELSE IF ret.k = "ok"', 'IF FALSE THEN Leave(ret)\n                 ELSE IF ret.k = "ok"', "choice mix"),
    ("alt-recovers-first", MACHINE, '[cal EXCEPT !.n = Node(cal.n).a, !.r = -1])\nRetAlt1', '[cal EXCEPT !.n = Node(cal.n).a])\nRetAlt1', "choice mix"),
    ("alt2-recovers", MACHINE, '[Fr.c EXCEPT !.n = Node(Fr.c.n).b, !.r = -1])\nRetAlt2', '[Fr.c EXCEPT !.n = Node(Fr.c.n).b])\nRetAlt2', "choice mix"),
    ("alt-ok-forgets-expected", MACHINE, 'Leave(SetExpected(ret, e))', 'Leave(ret)', "choice mix labels"),
    ("alt-error-of-second", MACHINE, 'Leave(Err(Fr.o, e, FALSE))\n                 ELSE Resume', 'Leave(Err(Fr.o, ret.e, FALSE))\n                 ELSE Resume', "choice"),
    ("alt-expected-reversed", MACHINE, '/\\ LET e == Fr.e \\o ret.e', '/\\ LET e == ret.e \\o Fr.e', "choice"),
    ("unsanctioned", MACHINE, 'rs == ra.r \\o Sanctioned(rb.r)', 'rs == ra.r \\o rb.r', "choice mix"),
    ("sanctioned-both", MACHINE, 'rs == ra.r \\o Sanctioned(rb.r)', 'rs == Sanctioned(ra.r) \\o Sanctioned(rb.r)', "choice mix"),
    ("join-drops-second", MACHINE, 'rs == ra.r \\o Sanctioned(rb.r)', 'rs == ra.r', "choice mix"),
    ("maybe-recovers", MACHINE, '[cal EXCEPT !.n = Node(cal.n).a, !.r = -1])\nRetMaybe', '[cal EXCEPT !.n = Node(cal.n).a])\nRetMaybe', "choice mix"),
    ("maybe-hides-commit", MACHINE, 'Leave(IF ret.d \\/ ret.k = "ok" THEN ret', 'Leave(IF ret.k = "ok" THEN ret', "choice mix"),
    ("maybe-forgets-expected", MACHINE, 'ELSE Ok(NoneV, Fr.p, Fr.x, ret.e, FALSE))', 'ELSE Ok(NoneV, Fr.p, Fr.x, << >>, FALSE))', "labels"),
    ("many-hides-commit", MACHINE, 'Leave(IF ret.d THEN ret ELSE Ok(ListV', 'Leave(IF FALSE THEN ret ELSE Ok(ListV', "mix many"),
    ("many-forgets-expected", MACHINE, 'Fr.e \\o ret.e, Fr.vs # << >>))', 'ret.e, Fr.vs # << >>))', "labels"),
    ("many-never-consumed", MACHINE, 'Fr.e \\o ret.e, Fr.vs # << >>))', 'Fr.e \\o ret.e, FALSE))', "many"),
    ("many-empty-loops", MACHINE, 'IF ~ret.d THEN Raise("runtime")', 'IF FALSE THEN Raise("runtime")', "self mix"),
    ("many-recovers-first", MACHINE, '[cal EXCEPT !.n = Node(cal.n).a, !.r = -1])\nRetManyMore', '[cal EXCEPT !.n = Node(cal.n).a])\nRetManyMore', "many mix"),
    ("many-repair-loses-before", MACHINE, 'ListV(fr.vs \\o <<va>> \\o vb.c)', 'ListV(<<va>> \\o vb.c)', "many"),
    ("attempt-keeps-consumed", MACHINE, 'THEN [ret EXCEPT !.d = FALSE] ELSE ret)', 'THEN ret ELSE ret)', "choice"),
    ("attempt-recovers-not", MACHINE, 'IF ~cal.f /\\ cal.r # -1 THEN Jump', 'IF FALSE THEN Jump', "choice mix seq7"),
    ("seq-keeps-expected", MACHINE, 'ELSE [res EXCEPT !.e = exp \\o res.e, !.d = d]\n', 'ELSE [res EXCEPT !.d = d]\n', "choice labels"),
    ("seq-forgets-consumed", MACHINE, 'ELSE [res EXCEPT !.e = exp \\o res.e, !.d = d]\n', 'ELSE [res EXCEPT !.e = exp \\o res.e]\n', "choice"),
    ("seq-no-refill", MACHINE, 'IF ret.d THEN Fr.i ELSE Fr.r', 'Fr.r', "choice mix seqs"),
    ("seq-refills-always", MACHINE, 'IF ret.d THEN Fr.i ELSE Fr.r', 'Fr.i', "choice mix seqs"),
    ("cont-refills-always", MACHINE, 'IF ra.p = rb.p THEN ra.i ELSE fr.i', 'fr.i', "choice mix seqs seq7"),
    ("cont-never-refills", MACHINE, 'IF ra.p = rb.p THEN ra.i ELSE fr.i', 'ra.i', "choice mix seqs seq7"),
    ("cont-starts-full", MACHINE, 'ELSE Cal(SecondOf(nd, rp.v), rp.p, rp.x, FALSE, fr.i, rp.i)', 'ELSE Cal(SecondOf(nd, rp.v), rp.p, rp.x, FALSE, fr.i, fr.i)', "choice seqs"),
    ("cont-cost", MACHINE, 'Rep(ra.c + b.c, ra.q', 'Rep(b.c, ra.q', "choice seqs"),
    ("cont-priority-of-last", MACHINE, 'Rep(ra.c + b.c, ra.q', 'Rep(ra.c + b.c, b.q', "choice mix seqs"),
    ("cont-loses-edits", MACHINE, 'ra.s \\o PrepOps(b.s, ra.e, ra.d)', 'PrepOps(b.s, ra.e, ra.d)', "choice seqs"),
    ("cont-edits-swapped", MACHINE, 'ra.s \\o PrepOps(b.s, ra.e, ra.d)', 'PrepOps(b.s, ra.e, ra.d) \\o ra.s', "choice seqs"),
    ("bind-repair-of-first", MACHINE, 'ELSE Cal(SecondOf(nd, rp.v), rp.p', 'ELSE Cal(SecondOf(nd, fr.ra.r[1].v), rp.p', "bindrec seq7"),
    ("insert-with-none-left", MACHINE, 'canIns == nd.k \\in {"sym", "lit"} /\\ c.r > 0', 'canIns == nd.k \\in {"sym", "lit"}', "choice mix"),
    ("skip-not-nearest", MACHINE, 'ELSE IF Match(nd, p).ok THEN p ELSE Nearest(nd, p + 1)', 'ELSE IF Nearest(nd, p + 1) # -1 THEN Nearest(nd, p + 1) ELSE IF Match(nd, p).ok THEN p ELSE -1', "many mix"),
    ("skip-miscounted", MACHINE, 'loc, q - c.p, exp)>>', 'loc, q - c.p + 1, exp)>>', "mix"),
    ("skip-leaves-one", MACHINE, '<<SkipRep(c.i, mq.v, mq.p, UpdLoc', '<<SkipRep(c.i, mq.v, q, UpdLoc', "mix"),
    ("eof-does-not-skip", MACHINE, '<<PendingSkipRep(c.i, NoneV, Len(Inp), c.x', '<<PendingSkipRep(c.i, NoneV, c.p, c.x', "mix"),
    ("offer-with-none-left", MACHINE, 'IF c.f \\/ c.r <= 0 \\/ res.k = "ok" \\/ res.d THEN res', 'IF c.f \\/ c.r < 0 \\/ res.k = "ok" \\/ res.d THEN res', "rwith"),
    ("offer-after-consuming", MACHINE, 'IF c.f \\/ c.r <= 0 \\/ res.k = "ok" \\/ res.d THEN res', 'IF c.f \\/ c.r <= 0 \\/ res.k = "ok" THEN res', "rwith mix"),
    ("offer-last", MACHINE, 'IN  Rec(<<rp>> \\o res.r, loc, res.e, FALSE)', 'IN  Rec(res.r \\o <<rp>>, loc, res.e, FALSE)', "rwith mix"),
    ("offer-only", MACHINE, 'IN  Rec(<<rp>> \\o res.r, loc, res.e, FALSE)', 'IN  Rec(<<rp>>, loc, res.e, FALSE)', "rwith mix"),
    ("recover-no-op", MACHINE, '[ret.r[j] EXCEPT !.q = 0]', '[ret.r[j] EXCEPT !.q = -1]', "mix"),
    ("label-plain-only", MACHINE, 'IN  [rp EXCEPT !.e = IF rp.d THEN rp.e ELSE exp, !.s = SetExpOps(rp.s, exp)]', 'IN  rp', "labels mix"),
    ("label-when-consumed", MACHINE, 'LET r1 == IF res.d THEN res ELSE [res EXCEPT !.e = exp]', 'LET r1 == [res EXCEPT !.e = exp]', "labels"),
    ("block-no-mark", MACHINE, '!.x = [x EXCEPT !.mark = x.loc.c]])\nCallAligned', '!.x = x])\nCallAligned', "layout"),
    ("block-not-restored", MACHINE, 'RetCtx == At("ctx") /\\ Leave(SetCtx(ret, Fr.x))', 'RetCtx == At("ctx") /\\ Leave(ret)', "layout mlayout"),
    ("indented-no-mark", MACHINE, '[x EXCEPT !.mark = x.loc.c]])\n                      ELSE', 'x])\n                      ELSE', "layout mlayout"),
    ("aligned-any", MACHINE, 'IN IF x.mark = x.loc.c THEN Jump', 'IN IF x.mark <= x.loc.c THEN Jump', "layout"),
    ("stale-mark-in-repairs", MACHINE, 'THEN [res EXCEPT !.r = [j \\in 1..Len(res.r) |-> [res.r[j] EXCEPT !.x = x]]]', 'THEN res', "marks"),
    ("bind-target", MACHINE, 'IN  IF InSeq(k, nd.ts) THEN nd.ks', 'IN  IF FALSE THEN nd.ks', "seqs"),
    ("then-value", MACHINE, 'CASE k \\in {"seq", "then"} -> TupV(<<va, vb>>)', 'CASE k \\in {"seq", "then"} -> TupV(<<vb, va>>)', "seqs"),
    ("sepby-keeps-sep", MACHINE, '[] d = 4 -> NodeRec("seqr", o.b, o.a)', '[] d = 4 -> NodeRec("seql", o.b, o.a)', "lists"),
    ("chainr-as-chainl", MACHINE, '[] nd.k = "chainr1" -> FoldR', '[] nd.k = "chainr1" -> FoldL', "lists"),
    ("best-first-found", MACHINE, 'IF Better(rs[j], b) THEN rs[j] ELSE b)', 'b)', "mix"),
    ("undefined-delay", MACHINE, 'IF Definitions(cal.n) = {} THEN Raise("runtime")', 'IF Definitions(cal.n) = {} THEN Raise("value")', "self"),
    ("lit-prefix", MACHINE, 'IF p + Len(nd.ts) <= Len(Inp) /\\ \\A j \\in 1..Len(nd.ts)', 'IF p + Len(nd.ts) <= Len(Inp) /\\ \\A j \\in 1..1', "rex text"),
    ("rex-end-of-group", MACHINE, 'THEN Yes(Text(p, p + n), p + n + RunLen(<<nd.v>>, p + n)) ELSE No', 'THEN Yes(Text(p, p + n), p + n) ELSE No', "rex"),
    ("adv-not-moved", MACHINE, 'Advance(nd, x, q) == IF nd.k \\in {"lit", "rex"} THEN UpdLoc(x, q) ELSE x', 'Advance(nd, x, q) == IF nd.k \\in {"lit", "rex"} THEN [x EXCEPT !.loc = GetLoc(x, q - 1)] ELSE x', "text rex"),
    ("loc-lines", "Location.tla", 'ELSE L(pos, loc.l + Cardinality(nls), pos - MaxOf(nls))', 'ELSE L(pos, loc.l + 1, pos - MaxOf(nls))', "text"),
    ("loc-column-from-zero", "Location.tla", 'IF nls = {} THEN L(pos, loc.l, loc.c + (pos - loc.p))', 'IF nls = {} THEN L(pos, loc.l, pos - loc.p)', "text"),
    ("loc-off-by-one", "Location.tla", 'LET nls == Newlines(inp, loc.p + 1, pos)', 'LET nls == Newlines(inp, loc.p, pos)', "text"),
    ("loc-tab-width", "Location.tla", '(loc.c \\div TabStop + 1) * TabStop)', 'loc.c + TabStop)', "tab"),
    ("loc-lex-end", "Location.tla", 'THEN inp[Len(inp)].z', 'THEN inp[Len(inp)].o', "layout toks"),
    ("peg-alt-no-commit", "Abstract.tla", 'IN IF ra.ok \\/ ra.d THEN ra\n            ELSE LET rb', 'IN IF ra.ok THEN ra\n            ELSE LET rb', "choice"),
    ("peg-tried-order", "Abstract.tla", '[rb EXCEPT !.t = ra.t \\o rb.t', '[rb EXCEPT !.t = rb.t \\o ra.t', "choice"),
    ("peg-dynamic-mark", "Abstract.tla", '[] nd.k = "indented" -> Layout(mk + nd.n = Col(p), Col(p))', '[] nd.k = "indented" -> Layout(mk + nd.n = Col(p), mk)', "layout"),
    ("derives-no-insert", "Abstract.tla", '-> LeafDerives(nd, tp, i) \\cup Ins\n', '-> LeafDerives(nd, tp, i)\n', "choice"),
    ("derives-no-empty-many", "Abstract.tla", '{[j |-> i, v |-> << >>]} \\cup', '{} \\cup', "many"),
    ("budget-off-by-one", "Abstract.tla", 'j - i + 1 <= mi', 'j - i + 1 < mi', "mix"),
    ("edits-may-overlap", "Abstract.tla", 'es[j].p >= EditEnd(es[j - 1])', 'es[j].p > EditEnd(es[j - 1])', "mix seqs"),
    ("law-altassoc", "Laws.tla", 'With(Bi("alt", AA.a, e), <<Bi("alt", AA.b, nd.b)>>)', 'With(Bi("alt", AA.b, e), <<Bi("alt", AA.a, nd.b)>>)', "alts"),
    ("law-twice-many", "Laws.tla", 'nd.k \\in {"attempt", "maybe", "recover", "block"}', 'nd.k \\in {"attempt", "maybe", "many", "recover", "block"}', "laws"),
    ("law-relabel", "Laws.tla", 'With([nd EXCEPT !.a = e], <<[nd EXCEPT !.l = "other"]>>)', 'With([nd EXCEPT !.a = e, !.l = "other"], <<nd>>)', "laws"),
    ("law-seqassoc", "Laws.tla", 'IF AA.k = "seql" /\\ nd.k = "seql" THEN Bi("seql", AA.a, e)', 'IF AA.k = "seql" THEN Bi("seql", AA.a, e)', "laws2"),
    ("law-maybealt", "Laws.tla", 'With(Bi("alt", nd.a, e), <<PureNone>>)', 'With(Bi("alt", e, nd.a), <<PureNone>>)', "laws"),
    ("law-fmapalt-label", "Laws.tla", 'Total(nd) /\\ AA.k \\in {"label", "attempt", "recover", "block", "aligned", "indented"}', 'nd.k = "block" /\\ AA.k \\in {"label", "attempt", "aligned", "indented"}', "laws3"),
    ("law-blockindented", "Laws.tla", '<<Un("indented", nd.a)>>)', '<<[Un("indented", nd.a) EXCEPT !.n = 1]>>)', "laws3"),
]


def run(name, module, old, new, confs):
    tmp = tempfile.mkdtemp(prefix="specmut")
    try:
        spec = os.path.join(tmp, "spec")
        shutil.copytree(os.path.join(HERE, "spec"), spec)
        path = os.path.join(spec, module)
        text = open(path).read()
        assert text.count(old) == 1, (name, text.count(old))
        open(path, "w").write(text.replace(old, new))
        tlc.SPEC = spec
        seen = []
        for c in confs.split():
            try:
                res = tlc.run("MC.tla", models.cfg(CFG[c]), timeout=600)
            except tlc.TLCError as e:
                assert "semantic analysis failed" not in str(e), e      # the fault must be well-formed
                return "TLC (%s): %s" % (c, " ".join(str(e).split())[:120])
            if res["violated"]:
                m = re.findall(r"viol = (\{\"[^}]*\})", res["out"])
                return "TLC (%s): %s %s" % (c, res["violated"], m[-1] if m else "")
            cases = tlc.printed(res["out"], "CASE")
            bad = sum(models.differs((x, 3)) for x in cases)
            if bad:
                seen.append("%s %d/%d" % (c, bad, len(cases)))
        return "replay: " + ", ".join(seen) if seen else "NOT NOTICED"
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    for mut in MUTANTS:
        if not sys.argv[1:] or mut[0] in sys.argv[1:]:
            print("%-26s %s" % (mut[0], run(*mut)), flush=True)
