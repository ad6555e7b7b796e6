------------------------------ MODULE LexTrace ------------------------------
(* Validation of recorded calls of split_tokens: sp specification, tx text,  *)
(* o what came back [k "tokens"/"lexerror"/other, toks, loc, m message].     *)
EXTENDS Lexer, Json, IOUtils
Calls == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES id, stage
vars == <<lvars, id, stage>>
C == Calls[id]

Init == /\ id \in 1..Len(Calls) /\ stage = "lex"
        /\ lspec = Calls[id].sp /\ text = Calls[id].tx
        /\ pos = 0 /\ loc = L(0, 0, 0) /\ toks = << >> /\ out = ""
Lex == stage = "lex" /\ LexStep /\ UNCHANGED <<id, stage>>

Clause(name, ok) == IF ok THEN << >> ELSE <<name>>
Verdict ==
     Clause("outcome", C.o.k = out)
  \o (IF out = "tokens" /\ C.o.k = "tokens"
      THEN Clause("count", Len(C.o.toks) = Len(toks))
        \o (IF Len(C.o.toks) # Len(toks) THEN << >>
            ELSE Clause("kinds", \A j \in 1..Len(toks) : toks[j].k = C.o.toks[j].k)
              \o Clause("values", \A j \in 1..Len(toks) : toks[j].v = C.o.toks[j].v)
              \o Clause("starts", \A j \in 1..Len(toks) : toks[j].o = C.o.toks[j].o)
              \o Clause("ends", \A j \in 1..Len(toks) : toks[j].z = C.o.toks[j].z))
      ELSE << >>)
  \o (IF out = "lexerror" /\ C.o.k = "lexerror"
      THEN Clause("errloc", C.o.loc = loc) \o Clause("errtext", C.o.m = LexErrorText(loc))
      ELSE << >>)
Show == /\ stage = "lex" /\ out # "" /\ stage' = "done"
        /\ PrintT("VERDICT " \o ToJson([s |-> id, bad |-> [j \in 1..Len(Verdict) |-> <<1, Verdict[j]>>], fuel |-> 0]))
        /\ UNCHANGED <<lvars, id>>
Next == Lex \/ Show
Spec == Init /\ [][Next]_vars
=============================================================================
