------------------------------- MODULE Lexer --------------------------------
(* The lexer: a text is split by matching a specification again and again    *)
(* where the previous match ended, one match a step, moving the location     *)
(* forward.                                                                  *)
EXTENDS LexText

VARIABLES lspec, text, pos, loc, toks, out
lvars == <<lspec, text, pos, loc, toks, out>>

FirstMatch(p) == FirstOf(lspec, 1, text, p)
M == FirstMatch(pos)
EndLoc == TextInc(text, loc, M.e)

(* progress: a match has to be longer than empty *)
Usable == M.ok /\ M.e > pos
More == out = "" /\ pos < Len(text)

LexToken == /\ More /\ Usable /\ M.g # ""
            /\ toks' = Append(toks, [k |-> M.g, v |-> M.v, o |-> loc, z |-> EndLoc])
            /\ pos' = M.e /\ loc' = EndLoc
            /\ UNCHANGED <<lspec, text, out>>
LexSkip == /\ More /\ Usable /\ M.g = ""
           /\ pos' = M.e /\ loc' = EndLoc
           /\ UNCHANGED <<lspec, text, toks, out>>
LexFail == /\ More /\ ~Usable
           /\ out' = "lexerror"
           /\ UNCHANGED <<lspec, text, pos, loc, toks>>
LexDone == /\ out = "" /\ pos = Len(text)
           /\ out' = "tokens"
           /\ UNCHANGED <<lspec, text, pos, loc, toks>>
LexStep == LexToken \/ LexSkip \/ LexFail \/ LexDone

LexStart(sp, tx) == /\ lspec' = sp /\ text' = tx /\ pos' = 0 /\ loc' = L(0, 0, 0) /\ toks' = << >> /\ out' = ""

LexErrorText(o) == "Lexing error at " \o ToString(o.l + 1) \o ":" \o ToString(o.c + 1)

------------------------------------------------------------------------------
(* What must hold *)
TrueLocation == loc = TextLoc(text, pos)
TokensInOrder == \A j \in 1..Len(toks) :
  /\ toks[j].o.p < toks[j].z.p /\ toks[j].z.p <= pos
  /\ j > 1 => toks[j - 1].z.p <= toks[j].o.p
  /\ toks[j].o = TextLoc(text, toks[j].o.p) /\ toks[j].z = TextLoc(text, toks[j].z.p)
(* everything in front of pos is covered by tokens and skipped matches, so   *)
(* re-lexing from any token start gives the rest *)
TokenIsMatch == \A j \in 1..Len(toks) :
  LET m == FirstMatch(toks[j].o.p)
  IN m.ok /\ m.e = toks[j].z.p /\ m.g = toks[j].k /\ m.v = toks[j].v
(* the steps arrive at what splitting means *)
SplitAsDefined == out # "" /\ Len(text) <= 80 => Split(lspec, text) = [k |-> out, at |-> pos, toks |-> toks]
FailsOnlyWhenStuck == out = "lexerror" => ~Usable /\ pos < Len(text)
=============================================================================
