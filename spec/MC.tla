--------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration of the parsing machine on all small grammars and   *)
(* all small inputs.                                                         *)
(*                                                                           *)
(* A behaviour builds a grammar in postfix order (Push, Unary, Binary),      *)
(* chooses an input (Choose), runs the machine in plain mode and then in     *)
(* recovery mode with every allowance in MIs, and is judged (Judge): the     *)
(* outcomes of the runs against the meaning of the grammar (Abstract.tla)    *)
(* and against each other.  Every judged case is printed and replayed into   *)
(* the real library.                                                         *)
EXTENDS Repairs, Laws, Json

CONSTANTS Leaves, Unaries, Binaries,   \* what grammars are made of
          Focus,                       \* at least one node of these kinds
          MaxNodes, Alphabet, MaxLen, KM, MIs, Ends,
          Printing,                    \* print the judged cases
          LawSet,                      \* laws under which the grammar is rewritten and run again
          Watch,                       \* print the calls of the user's functions
          Deep                         \* compare the repairs with the meaning of recovery

VARIABLES arena, pile, phase, inp, left, outs, fuel, viol,
          twin                         \* << >>, or what was run before the grammar was rewritten
bvars == <<arena, pile>>
gvars == <<arena, pile, phase, inp, left, outs, fuel, viol, twin>>
vars == <<mvars, gvars>>

MCGraph(g) == g
MCInput(i) == i

MaxFuel == 3000
Lex == KM = "lex"

------------------------------------------------------------------------------
(* Grammars *)
N0 == [k |-> "", a |-> 0, b |-> 0, c |-> 0, ks |-> << >>, ts |-> << >>, s |-> "", v |-> "", l |-> "", n |-> 0]
(* configurations name the line break and the tab *)
Ch(x) == IF x = "NL" THEN NL ELSE IF x = "TAB" THEN TAB ELSE x
Quote(x) == IF x = NL THEN "'\\n'" ELSE IF x = TAB THEN "'\\t'" ELSE "'" \o x \o "'"
Sym(x) == IF Lex THEN [N0 EXCEPT !.k = "sym", !.s = "k" \o x, !.v = x, !.n = 1,
                                 !.l = "Token(kind='k" \o x \o "', value='" \o x \o "')"]
          ELSE [N0 EXCEPT !.k = "sym", !.s = x, !.v = x, !.l = Quote(x)]
Num(j) == ToString(j)

(* leaf x as node number j (a leaf may take several nodes) *)
LeafNodes(x, j) ==
  CASE x \in {"a", "b", "c", "NL", "TAB"} -> <<Sym(Ch(x))>>
    [] x = "sat"   -> <<[N0 EXCEPT !.k = "sat", !.ts = <<"a", "b">>]>>
    [] x = "pure"  -> <<[N0 EXCEPT !.k = "pure", !.n = j]>>
    [] x = "purefn" -> <<[N0 EXCEPT !.k = "purefn", !.n = j]>>
    [] x = "eof"   -> <<[N0 EXCEPT !.k = "eof", !.l = "end of file"]>>
    [] x = "unexp" -> <<[N0 EXCEPT !.k = "unexp", !.l = "U" \o Num(j)]>>
    [] x = "tok"   -> <<[N0 EXCEPT !.k = "tok", !.s = "ka", !.l = "ka"]>>
    [] x = "tokins" -> <<[N0 EXCEPT !.k = "tokins", !.s = "ka", !.v = "z", !.l = "ka"]>>
    [] x = "litab" -> <<[N0 EXCEPT !.k = "lit", !.ts = <<"a", "b">>, !.l = "'ab'"]>>
    [] x = "litnl" -> <<[N0 EXCEPT !.k = "lit", !.ts = <<"a", NL>>, !.l = "'a\\n'"]>>
    [] x = "star"  -> <<[N0 EXCEPT !.k = "rex", !.s = "star", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "plus"  -> <<[N0 EXCEPT !.k = "rex", !.s = "plus", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "trail" -> <<[N0 EXCEPT !.k = "rex", !.s = "trail", !.ts = <<"a">>, !.v = IF "NL" \in Alphabet THEN NL ELSE "b"]>>
    [] x = "opt"   -> <<[N0 EXCEPT !.k = "rex", !.s = "opt", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "pre"   -> <<[N0 EXCEPT !.k = "rex", !.s = "pre", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "side"  -> <<[N0 EXCEPT !.k = "rex", !.s = "side", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "after" -> <<[N0 EXCEPT !.k = "rex", !.s = "after", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "ahead" -> <<[N0 EXCEPT !.k = "rex", !.s = "ahead", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "bof"   -> <<[N0 EXCEPT !.k = "rex", !.s = "bof", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "eol"   -> <<[N0 EXCEPT !.k = "rex", !.s = "eol", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "rest"  -> <<[N0 EXCEPT !.k = "rex", !.s = "rest", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "bol"   -> <<[N0 EXCEPT !.k = "rex", !.s = "bol", !.ts = <<"a">>, !.v = "b"]>>
    [] x = "ws"    -> <<[N0 EXCEPT !.k = "rex", !.s = "star", !.ts = <<NL, " ">>, !.v = "b"]>>
    [] x = "undef" -> <<[N0 EXCEPT !.k = "delay"]>>
    \* a followed by a use of the whole grammar
    [] x = "aself" -> <<Sym("a"), [N0 EXCEPT !.k = "delay", !.n = 1], [N0 EXCEPT !.k = "seq", !.a = j, !.b = j + 1]>>

UnNode(x, a, j) ==
  CASE x = "label"  -> [N0 EXCEPT !.k = "label", !.a = a, !.l = "L" \o Num(j)]
    [] x = "rwith"  -> [N0 EXCEPT !.k = "rwith", !.a = a, !.s = "I" \o Num(j), !.n = j, !.l = "I" \o Num(j)]
    [] x = "rwithfn" -> [N0 EXCEPT !.k = "rwithfn", !.a = a, !.s = "I" \o Num(j), !.n = j, !.l = "J" \o Num(j)]
    [] x = "fmap"   -> [N0 EXCEPT !.k = "fmap", !.a = a, !.n = j]
    [] x = "indented0" -> [N0 EXCEPT !.k = "indented", !.a = a, !.n = 0]
    [] x = "indented1" -> [N0 EXCEPT !.k = "indented", !.a = a, !.n = 1]
    [] OTHER        -> [N0 EXCEPT !.k = x, !.a = a]
BinNode(x, a, b, j) ==
  IF x = "bind" THEN [N0 EXCEPT !.k = "bind", !.a = a, !.b = b,
                                !.ts = <<IF Lex THEN "ka:a" ELSE "a">>, !.ks = <<a>>]
  ELSE [N0 EXCEPT !.k = x, !.a = a, !.b = b]

(* chain operators are the values of fmap'ed parsers *)
Fits(x, b) == x \in {"chainl1", "chainr1"} => arena[b].k = "fmap"

Top == pile[Len(pile)]
Under == pile[Len(pile) - 1]
Room == Len(arena) + Len(pile)         \* nodes needed to complete what is on the pile, plus one

Push == /\ phase = "build"
        /\ \E x \in Leaves :
             LET j == Len(arena) + 1
                 ns == IF x = "dup" THEN << >> ELSE LeafNodes(x, j)
             IN /\ Len(arena) + Len(ns) + Len(pile) <= MaxNodes
                /\ x = "dup" => pile # << >>          \* another use of the first node
                /\ arena' = arena \o ns
                /\ pile' = Append(pile, IF x = "dup" THEN 1 ELSE Len(arena) + Len(ns))
        /\ UNCHANGED <<mvars, phase, inp, left, outs, fuel, viol, twin>>
Unary == /\ phase = "build" /\ Len(pile) >= 1 /\ Room <= MaxNodes
         /\ \E x \in Unaries :
              /\ arena' = Append(arena, UnNode(x, Top, Len(arena) + 1))
              /\ pile' = SubSeq(pile, 1, Len(pile) - 1) \o <<Len(arena) + 1>>
         /\ UNCHANGED <<mvars, phase, inp, left, outs, fuel, viol, twin>>
Binary == /\ phase = "build" /\ Len(pile) >= 2
          /\ \E x \in Binaries :
               /\ Fits(x, Top)
               /\ arena' = Append(arena, BinNode(x, Under, Top, Len(arena) + 1))
               /\ pile' = SubSeq(pile, 1, Len(pile) - 2) \o <<Len(arena) + 1>>
          /\ UNCHANGED <<mvars, phase, inp, left, outs, fuel, viol, twin>>

Complete == /\ Len(pile) = 1
            /\ \E j \in 1..Len(arena) : arena[j].k \in Focus
Closed(e) == IF e = "eof"
             THEN arena \o <<[N0 EXCEPT !.k = "eof", !.l = "end of file"],
                             [N0 EXCEPT !.k = "seql", !.a = Len(arena), !.b = Len(arena) + 1]>>
             ELSE arena
Root == IF twin = << >> THEN Len(arena) ELSE Len(twin[1].g)

------------------------------------------------------------------------------
(* Inputs *)
Char(x) == [k |-> x, v |-> x, n |-> -1, o |-> L(0, 0, 0), z |-> L(0, 0, 0)]
(* a token of line lc[1] at column lc[2] *)
Token(x, lc) == LET p == 4 * lc[1] + lc[2]
                IN [k |-> "k" \o x, v |-> x, n |-> p + 1, o |-> L(p, lc[1], lc[2]), z |-> L(p + 1, lc[1], lc[2] + 1)]
Seqs_(S, n) == UNION {[1..m -> S] : m \in 0..n}
Places(n) == {ps \in Seqs_((0..1) \X (0..2), n) :
                 \A j \in 2..Len(ps) : 4 * ps[j][1] + ps[j][2] > 4 * ps[j - 1][1] + ps[j - 1][2]}
Inputs ==
  IF Lex THEN UNION {{[j \in 1..Len(ps) |-> Token(xs[j], ps[j])] : xs \in [1..Len(ps) -> Alphabet]} : ps \in Places(MaxLen)}
  ELSE {[j \in 1..Len(xs) |-> Char(Ch(xs[j]))] : xs \in Seqs_(Alphabet, MaxLen)}

MIseq == LET RECURSIVE F(_)
             F(S) == IF S = {} THEN << >> ELSE <<MinOf(S)>> \o F(S \ {MinOf(S)})
         IN F(MIs)

SelfDefs(ar) == {<<j, Root>> : j \in {j \in 1..Len(ar) : ar[j].k = "delay" /\ ar[j].n = 1}}
           \cup {<<j, ar[j].a>> : j \in {j \in 1..Len(ar) : ar[j].k = "delay" /\ ar[j].n = 2}}

Choose ==
  /\ phase = "build" /\ Complete
  /\ \E e \in Ends : arena' = Closed(e)
  /\ phase' = "input"
  /\ UNCHANGED <<mvars, pile, inp, left, outs, fuel, viol, twin>>

RunEnv(mi) == [g |-> arena, i |-> inp, km |-> KM, mi |-> mi, defd |-> SelfDefs(arena)]
PickInput ==
  /\ phase = "input"
  /\ inp' \in Inputs
  /\ phase' = "run" /\ left' = <<-1>> \o MIseq
  /\ UNCHANGED <<mvars, bvars, outs, fuel, viol, twin>>

(* Runs: plain first (-1), then each allowance *)
Begin ==
  /\ phase = "run" /\ pc = "idle" /\ left # << >>
  /\ StartRun(Root, Head(left) = -1, RunEnv(IF Head(left) = -1 THEN 0 ELSE Head(left)))
  /\ fuel' = 0
  /\ UNCHANGED <<bvars, phase, inp, left, outs, viol, twin>>
Machining == /\ Running /\ fuel < MaxFuel /\ Step /\ fuel' = fuel + 1
             /\ UNCHANGED <<bvars, phase, inp, left, outs, viol, twin>>
End == /\ phase = "run" /\ Finished
       /\ outs' = Append(outs, ret)
       /\ left' = Tail(left)
       /\ pc' = "idle"
       /\ UNCHANGED <<env, cal, ret, stk, fnlog, bvars, phase, inp, fuel, viol, twin>>

(* The grammar rewritten by a law, and run again *)
Rewrite == /\ phase = "run" /\ pc = "idle" /\ left = << >> /\ twin = << >>
           /\ \E w \in LawSet : \E j \in 1..Len(arena) :
                /\ Applies(arena, w, j)
                /\ twin' = <<[w |-> w, j |-> j, g |-> arena, o |-> outs]>>
                /\ arena' = Rewritten(arena, w, j)
           /\ outs' = << >> /\ left' = <<-1>> \o MIseq
           /\ UNCHANGED <<mvars, pile, phase, inp, fuel, viol>>

------------------------------------------------------------------------------
(* Judgement *)
Plain == Unwrap(outs[1], FALSE)
RefinesMeaning ==
  LET m == PegRun(Root)
      o == Plain
  IN IF m.x # "" THEN o.k = m.x
     ELSE IF m.ok THEN o.k = "val" /\ o.v = m.v ELSE o.k = "err"
ExpectedIsTried ==
  LET m == PegRun(Root)
      o == Plain
  IN o.k = "err" /\ ~m.ok /\ m.x = "" /\ AttemptFree =>
       LET q == Furthest(m.t)
       IN /\ outs[1].o = LocAt(KM, inp, q)
          /\ outs[1].e = TriedAt(m.t, q)
Conservative(j) ==
  Plain.k = "val" => outs[j].k = "ok" /\ outs[j].v = Plain.v
NotHidden(j) ==
  Plain.k = "err" => LET u == Unwrap(outs[j], FALSE)
                     IN u.k \in {"err", "runtime"} /\ (u.k = "err" => Len(u.e) >= 1)
FirstDiagnosis(j) ==
  Plain.k = "err" /\ AttemptFree =>
    LET u == Unwrap(outs[j], FALSE)
    IN u.k = "err" => /\ u.e[1].p = Plain.e[1].p /\ u.e[1].l = Plain.e[1].l /\ u.e[1].c = Plain.e[1].c
                      /\ u.e[1].ex = Plain.e[1].ex
NoEditIffNoRepair(j) ==
  Plain.k = "err" => LET u == Unwrap(outs[j], FALSE)
                     IN u.k = "err" => (outs[j].r = << >>) = (Len(u.e) = 1 /\ u.e[1].k = "none")
Sound(j, mi) ==
  \A i \in 1..Len(outs[j].r) :
    LET rp == outs[j].r[i]
        es == Edits(RepairErrs(rp))
    IN /\ Len(es) >= 1
       /\ EditsOk(es)
       /\ WithinBudget(es, mi)
       /\ Explains(Root, es, rp.v)
       /\ rp.c = SumOf([x \in 1..Len(es) |-> IF es[x].k = "skip" THEN es[x].n ELSE 1])
(* a larger allowance never turns a repairable input into an unrepairable    *)
(* one, and never makes the cheapest repair dearer                           *)
Monotone == \A i, j \in 2..Len(outs) :
  i < j /\ outs[i].k = "rec" /\ outs[i].r # << >> /\ outs[j].k = "rec" =>
    outs[j].r # << >> /\ Best(outs[j].r).c <= Best(outs[i].r).c

Failing ==
     (IF RefinesMeaning THEN {} ELSE {"RefinesMeaning"})
  \cup (IF ExpectedIsTried THEN {} ELSE {"ExpectedIsTried"})
  \cup (IF Monotone THEN {} ELSE {"Monotone"})
  \cup UNION {(IF Conservative(j) THEN {} ELSE {"Conservative"})
         \cup (IF NotHidden(j) THEN {} ELSE {"NotHidden"})
         \cup (IF FirstDiagnosis(j) THEN {} ELSE {"FirstDiagnosis"})
         \cup (IF NoEditIffNoRepair(j) THEN {} ELSE {"NoEditIffNoRepair"})
         \cup (IF ~Deep \/ AsMeant(Root, MIseq[j - 1], outs[j]) THEN {} ELSE {"AsMeant"})
         \cup (IF Sound(j, MIseq[j - 1]) THEN {} ELSE {"Sound"}) : j \in 2..Len(outs)}

(* the rewritten grammar: every run shows what it showed before *)
Broken == IF twin = << >> THEN {}
          ELSE {twin[1].w : j \in {j \in 1..Len(outs) :
                  \E u \in BOOLEAN : Unwrap(outs[j], u) # Unwrap(twin[1].o[j], u)}}

Shown(u) == [k |-> u.k, v |-> u.v, e |-> u.e, m |-> IF u.k = "err" THEN ErrMsg(u.e) ELSE ""]
Case == [g |-> arena, r |-> Root, b |-> IF twin = << >> THEN << >> ELSE twin[1].g, law |-> IF twin = << >> THEN << >> ELSE <<twin[1].w, twin[1].j>>,
         i |-> inp, km |-> KM, mis |-> MIseq, w |-> Watch, u |-> IF Watch THEN PegRun(Root).u ELSE << >>,
         o |-> <<Shown(Plain)>> \o [j \in 1..(2 * Len(MIseq)) |-> Shown(Unwrap(outs[(j + 3) \div 2], j % 2 = 0))]]
Judge ==
  /\ phase = "run" /\ left = << >> /\ pc = "idle" /\ (LawSet = {} \/ twin # << >>)
  /\ viol' = Failing \cup Broken
  /\ phase' = "done"
  /\ Printing => PrintT("CASE " \o ToJson(Case))
  /\ UNCHANGED <<mvars, bvars, inp, left, outs, fuel, twin>>

Init == /\ env = [g |-> << >>, i |-> << >>, km |-> KM, mi |-> 0, defd |-> {}] /\ pc = "idle"
        /\ cal = Cal(0, 0, Ctx0, TRUE, -1, -1) /\ ret = Exc("none") /\ stk = << >> /\ fnlog = {}
        /\ arena = << >> /\ pile = << >> /\ phase = "build" /\ inp = << >>
        /\ left = << >> /\ outs = << >> /\ fuel = 0 /\ viol = {} /\ twin = << >>
Next == Push \/ Unary \/ Binary \/ Choose \/ PickInput \/ Begin \/ Machining \/ End \/ Rewrite \/ Judge
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Begin \/ Machining \/ End \/ Judge)

------------------------------------------------------------------------------
(* Invariants of every state *)
Judged == viol = {}
Ends_ == fuel < MaxFuel                                  \* every run ends
Terminates == (phase = "run") ~> (phase = "done")

InRange == Running \/ Finished => cal.p \in 0..Len(Inp)
Allowance == pc = "call" /\ ~cal.f => cal.i = env.mi /\ cal.r \in -1..env.mi
(* the known location is the true location of an earlier (or this) position *)
TrueLoc(x, p) == x.loc = L(0, 0, 0) \/ \E q \in 0..p : x.loc = LocAt(KM, Inp, q)
LocationsTrue ==
  /\ pc = "call" => TrueLoc(cal.x, cal.p)
  /\ pc = "ret" /\ ret.k = "ok" => TrueLoc(ret.x, ret.p)
  /\ pc = "ret" /\ ret.k = "rec" => \A j \in 1..Len(ret.r) : TrueLoc(ret.r[j].x, ret.r[j].p)
ErrorsLocated == pc = "ret" /\ ret.k \in {"err", "rec"} => \E q \in 0..Len(Inp) : ret.o = LocAt(KM, Inp, q)
(* plain mode never repairs; repairs respect the allowance and cost what they say *)
PlainNeverRepairs == outs # << >> => outs[1].k # "rec"
CostOf(s) == SumOf([j \in 1..Len(s) |-> IF s[j].k = "skip" THEN s[j].n ELSE 1])
RepairsWellFormed ==
  pc = "ret" /\ ret.k = "rec" =>
    \A j \in 1..Len(ret.r) :
      LET rp == ret.r[j]
      IN rp.i \in 0..env.mi /\ rp.c = CostOf(rp.s) /\ rp.c >= 1 /\ rp.q \in {-1, 0} /\ rp.p \in 0..Len(Inp)
(* where recovery is off, a repair is returned only after something was consumed *)
NoRecoveryBeforeConsuming ==
  /\ At("alt1") /\ ret.k = "rec" => ret.d
  /\ At("alt2") /\ ret.k = "rec" => ret.d
  /\ At("maybe") /\ ret.k = "rec" => ret.d
  /\ At("many") /\ ret.k = "rec" => ret.d
(* the consumed flag of a success says whether the position moved *)
ConsumedMeansMoved ==
  /\ At("alt1") /\ ret.k = "ok" => ret.d = (ret.p > Fr.c.p)
  /\ At("maybe") /\ ret.k = "ok" => ret.d = (ret.p > Fr.p)
  /\ At("many") /\ ret.k = "ok" => ret.d = (ret.p > Fr.c.p)
=============================================================================
