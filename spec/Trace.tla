------------------------------- MODULE Trace --------------------------------
(* Validation of sessions recorded from the real library.                    *)
(*                                                                           *)
(* A session is an arena of parsers, input streams, and a list of events,    *)
(* each one a call through the public API with what it returned or raised:   *)
(*   parse   run parser r on input i: mode m (fast/slow), location kind km,  *)
(*           mi max_insertions; fl: recover_with_fn calls observed;          *)
(*           us: all calls of user functions, if lg                          *)
(*   unwrap  unwrap handle h with recover = u                                *)
(*   rfmap   ParseResult.fmap on handle h with callback n -> new handle      *)
(*   define  Delay r is defined as h                                         *)
(*   stream  contents of input i as found after a parse                      *)
(*   touch   the client modified objects it was given                        *)
(*   relate  compares the outcomes of events x[1] (no recovery), x[2]        *)
(*           (recovery, unwrap()) and x[3] (recovery, unwrap(recover=True))  *)
(*   fmaprel compares the outcomes of unwraps x[1] and x[2], where the       *)
(*           handle of the second is the first's mapped by callback n        *)
(*   echo    compares an outcome seen under interleaving with event x[1]     *)
(*   sound   checks the edits of x[1] against the value of x[2]              *)
(*   law     compares a grammar with its rewriting                           *)
(*   lex     split_tokens of text st[2] by specification st[1]: input i (0   *)
(*           and the location x if the text cannot be lexed)                 *)
(*   piped   compares the locations in the errors of x[2], x[3].. with the   *)
(*           text lexed by event x[1]                                        *)
(*   asked   what the parse of event x[1] asked of get_loc, of the stream    *)
(*           and of fmt_loc: st                                              *)
(*   placed  pairs of steps under different location functions: x            *)
(* Parse events run the parsing machine to its end; every other event is one *)
(* step.  A mismatch never blocks: the names of the clauses that failed are  *)
(* collected and printed as the verdict of the session.                      *)
EXTENDS Repairs, Laws, Json, IOUtils

Sess == JsonDeserialize(IOEnv.TRACE_FILE)

TraceGraph(g) == Sess[g].nodes
TraceInput(i) == Sess[i[1]].inputs[i[2]]

VARIABLES sid, l, store, bad, fuel
tvars == <<sid, l, store, bad, fuel>>

Ev == Sess[sid].ev
E == Ev[l]
SetOf(s) == {s[j] : j \in 1..Len(s)}

Init == /\ sid \in 1..Len(Sess)
        /\ l = 1 /\ store = << >> /\ bad = << >> /\ fuel = 0
        /\ env = [g |-> sid, i |-> <<sid, 1>>, km |-> "plain", mi |-> 0, defd |-> SetOf(Sess[sid].defd)]
        /\ pc = "idle" /\ cal = Cal(0, 0, Ctx0, TRUE, -1, -1) /\ ret = Exc("none")
        /\ stk = << >> /\ fnlog = {}

Clause(name, ok) == IF ok THEN << >> ELSE <<name>>
SameItems(es, os, P(_, _)) == Len(es) = Len(os) /\ \A j \in 1..Len(es) : P(es[j], os[j])
Pre(name) == IF E.m = "slow" THEN "r" \o name ELSE name     \* r: in recovery mode
Usual == {"val", "err", "ok"}

IndentPlaces(ex) == {j \in 1..Len(ex) : ex[j] = "indentation"}
(* edits with the same kinds, counts and labels *)
SameOps(s, o) == SameItems(s.e, o.e, LAMBDA a, b : a.k = b.k /\ a.n = b.n /\ a.b = b.b)
NoRepair(o) == Len(o.e) = 1 /\ o.e[1].k = "none"
(* elements inserted and skipped by the edits of an error *)
RECURSIVE Work(_, _)
Work(es, j) == IF j > Len(es) THEN 0
               ELSE (CASE es[j].k = "ins" -> 1 [] es[j].k = "skip" -> es[j].n [] OTHER -> 0) + Work(es, j + 1)
(* what the specification says, s, and what was observed, o *)
CompareOutcome(s, o) ==
     Clause(Pre("kind"), s.k = o.k)
  \o Clause("end", (s.k \in Usual) = (o.k \in Usual) /\ (s.k \notin Usual => s.k = o.k))
  \o Clause(Pre("value"), s.k = "val" /\ o.k = "val" => s.v = o.v)
  \o (IF s.k = "err" /\ o.k = "err"
      THEN Clause(Pre("ops"), SameOps(s, o))
        \o Clause("allowance", NoRepair(o) => NoRepair(s))
        \o (IF NoRepair(o) \/ SameOps(s, o) THEN << >>       \* insertions that were allowed, and would have been less work
            ELSE Clause("found", (\E j \in 1..Len(s.e) : s.e[j].k = "ins") => Work(o.e, 1) <= Work(s.e, 1)))
        \o (IF SameOps(s, o)
            THEN Clause(Pre("loc"), SameItems(s.e, o.e, LAMBDA a, b : a.p = b.p /\ a.l = b.l /\ a.c = b.c))
              \o Clause(Pre("expected"), SameItems(s.e, o.e, LAMBDA a, b : a.ex = b.ex))
              \o Clause("indent", SameItems(s.e, o.e, LAMBDA a, b : (IndentPlaces(a.ex) = {}) = (IndentPlaces(b.ex) = {})))
            ELSE << >>)
      ELSE << >>)
(* what can be said of an observed error on its own *)
ErrorWellFormed(o) ==
  IF o.k # "err" THEN << >>
  ELSE Clause("noitems", Len(o.e) >= 1)
    \o Clause("locwf", \A j \in 1..Len(o.e) :
                 \E q \in (IF env.km \in {"lex", "abs"} THEN 0..Len(Inp) ELSE 0..Len(Inp) \cap {o.e[j].p}) :
                    L(o.e[j].p, o.e[j].l, o.e[j].c) = LocAt(env.km, Inp, q))
    \o Clause("locstr", \A j \in 1..Len(o.e) : o.e[j].s = LocStr(env.km, L(o.e[j].p, o.e[j].l, o.e[j].c)))
    \o Clause("message", Len(o.e) >= 1 => ErrMsg(o.e) = o.m)
    \o Clause("itemmsg", \A j \in 1..Len(o.e) : ItemMsg(o.e[j]) = o.e[j].m)

Tick(cl) == /\ bad' = bad \o [j \in 1..Len(cl) |-> <<l, cl[j]>>]
            /\ l' = l + 1
Idle == UNCHANGED <<pc, cal, ret, stk, fnlog>>

Active(k) == l <= Len(Ev) /\ E.e = k /\ pc = "idle"
RunEnv == [g |-> sid, i |-> <<sid, E.i>>, km |-> E.km, mi |-> E.mi, defd |-> env.defd]

EvParse == /\ Active("parse")
           /\ StartRun(E.r, E.m = "fast", RunEnv)
           /\ UNCHANGED tvars

(* the meaning of a plain parse, checked on the recorded outcome itself,     *)
(* when the next event is its unwrap (or the parse raised)                   *)
Unwrapped == l < Len(Ev) /\ Ev[l + 1].e = "unwrap" /\ Ev[l + 1].h = Len(store) + 1
PegClauses ==
  IF E.m # "fast" \/ (E.o.k = "ok" /\ ~Unwrapped) THEN << >>
  ELSE LET m == PegRun(E.r)
           o == IF E.o.k = "ok" THEN Ev[l + 1].o ELSE E.o
       IN   Clause("peg", IF m.x # "" THEN o.k = m.x
                          ELSE IF m.ok THEN o.k = "val" /\ o.v = m.v ELSE o.k = "err")
         \o Clause("calls", ~E.lg \/ E.us = m.u)
         \o (IF o.k = "err" /\ Len(o.e) >= 1 /\ ~m.ok /\ m.x = "" /\ AttemptFree
             THEN LET q == Furthest(m.t)
                  IN    Clause("furthest", L(o.e[1].p, o.e[1].l, o.e[1].c) = LocAt(env.km, Inp, q))
                     \o Clause("tried", o.e[1].ex = TriedAt(m.t, q))
             ELSE << >>)

(* the meaning of a recovering parse: the candidate that is reported         *)
Small == Len(Sess[sid].nodes) <= 24 /\ Len(Inp) <= 10
ChosenClause ==
  IF E.m # "slow" \/ ~Unwrapped \/ ~Small \/ ret.k # "rec" \/ ret.r = << >> THEN << >>
  ELSE LET R == Recovering(E.r, E.mi)
           o == Ev[l + 1].o
       IN Clause("chosen", /\ R.x = "" /\ ~R.ok /\ R.w # {}
                           /\ IF Ev[l + 1].u THEN o.k = "val" /\ o.v = Reported(R.w).v
                              ELSE o.k = "err" /\ Edits(o.e) = Reported(R.w).s)

EvParsed ==
  /\ l <= Len(Ev) /\ E.e = "parse" /\ Finished
  /\ store' = Append(store, [r |-> ret, env |-> env])
  /\ LET s == IF ret.k = "exc" THEN ret.e[1] ELSE "ok"
     IN Tick(Clause(Pre("kind"), E.o.k = s) \o Clause("end", E.o.k = s)
       \o Clause("callback", ret.k = "exc" \/ \A j \in 1..Len(E.fl) : E.fl[j] \in fnlog)
       \o PegClauses \o ChosenClause
       \o (IF E.m = "slow" /\ E.lg THEN LET m == PegRun(E.r) IN Clause("rcalls", m.ok => E.us = m.u) ELSE << >>))
  /\ pc' = "idle" /\ UNCHANGED <<env, cal, ret, stk, fnlog, sid, fuel>>

HandleEnv == [store[E.h].env EXCEPT !.defd = env.defd]
EvHandle == Active("unwrap") /\ env # HandleEnv /\ env' = HandleEnv /\ Idle /\ UNCHANGED tvars
EvUnwrap ==
  /\ Active("unwrap") /\ env = HandleEnv
  /\ Tick(CompareOutcome(Unwrap(store[E.h].r, E.u), E.o) \o ErrorWellFormed(E.o))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

(* ParseResult.fmap maps the value of a success and of every repair *)
EvRFmap ==
  /\ Active("rfmap")
  /\ LET F(v) == T("f", "", E.n, <<v>>)
         r == store[E.h].r
         r2 == IF r.k = "ok" THEN [r EXCEPT !.v = F(r.v)]
               ELSE IF r.k = "rec"
                    THEN [r EXCEPT !.r = [j \in 1..Len(r.r) |-> [r.r[j] EXCEPT !.v = F(r.r[j].v)]]]
                    ELSE r
     IN store' = Append(store, [store[E.h] EXCEPT !.r = r2])
  /\ Tick(Clause("kind", E.o.k = "ok"))
  /\ Idle /\ UNCHANGED <<env, sid, fuel>>

EvDefine ==
  /\ Active("define")
  /\ LET again == Definitions(E.r) # {}
     IN /\ env' = IF again THEN env ELSE [env EXCEPT !.defd = @ \cup {<<E.r, E.h>>}]
        /\ Tick(Clause("define", E.o.k = IF again THEN "runtime" ELSE "ok"))
  /\ Idle /\ UNCHANGED <<sid, store, fuel>>

EvTouch == Active("touch") /\ Tick(<< >>) /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

EvStream ==
  /\ Active("stream")
  /\ Tick(Clause("stream", E.st = Sess[sid].inputs[E.i]))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

(* f plain, s recovering, t recovering with unwrap(recover=True): observed   *)
RelateClauses(f, s, t) ==
     (IF f.k = "val" THEN Clause("conservative", s.k = "val" /\ t.k = "val" /\ s.v = f.v /\ t.v = f.v) ELSE << >>)
  \o (IF f.k = "err"
      THEN Clause("hidden", s.k \in {"err", "runtime", "boom"} /\ (s.k = "err" => Len(s.e) >= 1))
        \o (IF s.k = "err" /\ Len(s.e) >= 1 /\ Len(f.e) >= 1
            THEN Clause("noedit", IF t.k = "err" THEN NoRepair(s) /\ t.e = s.e
                                  ELSE t.k = "val" /\ \A j \in 1..Len(s.e) : s.e[j].k # "none")
              \o (IF AttemptFree
                  THEN Clause("firstloc", s.e[1].p = f.e[1].p /\ s.e[1].l = f.e[1].l /\ s.e[1].c = f.e[1].c)
                    \o Clause("firstexp", s.e[1].ex = f.e[1].ex)
                  ELSE << >>)
            ELSE << >>)
      ELSE << >>)
(* b is a with its value, if any, mapped by the function numbered n *)
FmapClauses(a, b, n) ==
  Clause("fmapped", /\ a.k = b.k
                    /\ a.k = "val" => b.v = T("f", "", n, <<a.v>>)
                    /\ a.k = "err" => a.e = b.e /\ a.m = b.m)
EvRelate ==
  /\ Active("relate")
  /\ Tick(RelateClauses(Ev[E.x[1]].o, Ev[E.x[2]].o, Ev[E.x[3]].o))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

EvFmapRel ==
  /\ Active("fmaprel")
  /\ Tick(FmapClauses(Ev[E.x[1]].o, Ev[E.x[2]].o, E.n))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

(* the outcome of the same parse run together with another one, recorded     *)
(* where it is not that of event x[1]                                        *)
EvEcho ==
  /\ Active("echo")
  /\ Tick(Clause("interference", E.o = Ev[E.x[1]].o))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

(* The arena is one grammar (of E.r nodes) and, after it, the same grammar   *)
(* rewritten by the laws E.st: events x[1] and x[2], x[3] and x[4], ... are  *)
(* the same steps taken with either.                                         *)
EvLaw ==
  /\ Active("law")
  /\ Tick(LET g == Sess[sid].nodes
              g2 == Chain(SubSeq(g, 1, E.r), E.st)
          IN Clause("lawform", g2 # << >> /\ SubSeq(g, E.r + 1, Len(g)) = Moved(g2, E.r))
          \o Clause("law", \A j \in 1..(Len(E.x) \div 2) : Ev[E.x[2 * j - 1]].o = Ev[E.x[2 * j]].o))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

Lx == INSTANCE LexText
EvLex ==
  /\ Active("lex")
  /\ Tick(LET r == Lx!Split(E.st[1], E.st[2])
              at == TextLoc(E.st[2], r.at)
          IN IF r.k # E.o.k THEN <<"lexkind">>
             ELSE IF r.k = "tokens"
             THEN Clause("lextoks", Sess[sid].inputs[E.i] =
                    [j \in 1..Len(r.toks) |-> [k |-> r.toks[j].k, v |-> r.toks[j].v, n |-> r.toks[j].o.p + 1,
                                               o |-> r.toks[j].o, z |-> r.toks[j].z]])
             ELSE Clause("lexloc", E.x = <<at.p, at.l, at.c>>)
               \o Clause("lexmsg", E.o.m = "Lexing error at " \o LocStr("lex", at)))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>
(* where a parse of a lexed text may stop: at a token, or behind the last    *)
EvPiped ==
  /\ Active("piped")
  /\ Tick(LET tx == Ev[E.x[1]].st[2]
              toks == Lx!Split(Ev[E.x[1]].st[1], tx).toks
              stops == {toks[j].o : j \in 1..Len(toks)} \cup {IF toks = << >> THEN L(0, 0, 0) ELSE toks[Len(toks)].z}
              Fine(o) == \A e \in 1..Len(o.e) :
                           LET at == L(o.e[e].p, o.e[e].l, o.e[e].c)
                           IN at \in stops /\ at = TextLoc(tx, at.p) /\ o.e[e].s = LocStr("lex", at)
          IN Clause("textloc", \A j \in 2..Len(E.x) : Ev[E.x[j]].o.k = "err" => Fine(Ev[E.x[j]].o)))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

(* What the parse of event x[1] asked of the functions and the stream that    *)
(* the user gave it: locations are made from earlier ones of this parse, for *)
(* positions of this stream; elements are read where there are some; only    *)
(* locations so made are written out.                                        *)
Start == L(0, 0, 0)
EvAsked ==
  /\ Active("asked")
  /\ Tick(LET cs == E.st[1]
              n == Len(Sess[sid].inputs[E.i])
              Known(b, j, q) == b = Start \/ \E i \in 1..j - 1 : cs[i].o = b /\ cs[i].q <= q
          IN Clause("asked", \A j \in 1..Len(cs) : cs[j].s /\ cs[j].q \in 0..n /\ Known(cs[j].b, j, cs[j].q))
          \o Clause("reads", SetOf(E.st[2]) \subseteq 0..n - 1)
          \o Clause("formats", \A f \in SetOf(E.st[3]) : Known(f, Len(cs) + 1, n)))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

(* x: pairs of steps that differ in the location functions only              *)
Unplaced(o) == [k |-> o.k, v |-> o.v, e |-> [j \in 1..Len(o.e) |-> [ex |-> o.e[j].ex, k |-> o.e[j].k, n |-> o.e[j].n, b |-> o.e[j].b]]]
EvPlaced ==
  /\ Active("placed")
  /\ Tick(Clause("placed", \/ \E j \in 1..Len(Sess[sid].nodes) : Node(j).k \in {"block", "aligned", "indented"}
                          \/ \A j \in 1..(Len(E.x) \div 2) : Unplaced(Ev[E.x[2 * j - 1]].o) = Unplaced(Ev[E.x[2 * j]].o)))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

EvLoad == Active("sound") /\ env # RunEnv /\ env' = RunEnv /\ Idle /\ UNCHANGED tvars
EvSound ==
  /\ Active("sound") /\ env = RunEnv
  /\ Tick(LET s == Ev[E.x[1]].o
              t == Ev[E.x[2]].o
              es == Edits(s.e)
          IN IF s.k # "err" \/ t.k # "val" THEN << >>
             ELSE Clause("editswf", EditsOk(es))
               \o Clause("budget", WithinBudget(es, E.mi))
               \o (IF EditsOk(es) THEN Clause("explains", Explains(E.r, es, t.v)) ELSE << >>))
  /\ Idle /\ UNCHANGED <<env, sid, store, fuel>>

Machining == /\ Running /\ fuel < Sess[sid].fuel /\ Step /\ fuel' = fuel + 1
             /\ UNCHANGED <<sid, l, store, bad>>

Stop == pc' = "stop" /\ UNCHANGED <<env, cal, ret, stk, fnlog>> /\ UNCHANGED tvars
Report == /\ l = Len(Ev) + 1 /\ pc = "idle"
          /\ PrintT("VERDICT " \o ToJson([s |-> sid, bad |-> bad, fuel |-> fuel]))
          /\ Stop
OutOfFuel == /\ Running /\ fuel >= Sess[sid].fuel
             /\ PrintT("VERDICT " \o ToJson([s |-> sid, bad |-> bad, fuel |-> -1]))
             /\ Stop

Next == Machining \/ EvParse \/ EvParsed \/ EvHandle \/ EvUnwrap \/ EvRFmap \/ EvDefine \/ EvTouch \/ EvStream
        \/ EvRelate \/ EvFmapRel \/ EvEcho \/ EvLaw \/ EvLex \/ EvPiped \/ EvAsked \/ EvPlaced \/ EvLoad \/ EvSound \/ Report \/ OutOfFuel
Spec == Init /\ [][Next]_<<mvars, tvars>>
=============================================================================
