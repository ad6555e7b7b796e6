-------------------------------- MODULE Conc --------------------------------
(* Two parses with the same parsers, running at the same time.  The first is *)
(* the machine of module Solo (env, pc, ...), the second a copy of it.  They *)
(* switch at calls of user code (Machine!UserCalls), at most MaxSwitch        *)
(* times; when one has ended the other one runs on.                          *)
EXTENDS Solo

CONSTANT MaxSwitch
VARIABLES envB, pcB, calB, retB, stkB, fnlogB, one, two, turn, left, sched
mvarsB == <<envB, pcB, calB, retB, stkB, fnlogB>>
cvars == <<one, two, turn, left, sched>>
vars == <<mvars, svars, mvarsB, cvars>>
B == INSTANCE Machine WITH env <- envB, pc <- pcB, cal <- calB, ret <- retB, stk <- stkB, fnlog <- fnlogB

Init == /\ SoloInit
        /\ envB = env /\ pcB = "idle" /\ calB = cal /\ retB = ret /\ stkB = << >> /\ fnlogB = {}
        /\ one = 0 /\ two = 0 /\ turn = 1 /\ left = MaxSwitch /\ sched = <<0>>

Launch == /\ phase = "client" /\ phase' = "conc"
          /\ \E c, d \in 1..Len(Combos) :
               /\ one' = c /\ two' = d
               /\ StartRun(Combos[c].r, Combos[c].m = "fast", EnvOf(c))
               /\ B!StartRun(Combos[d].r, Combos[d].m = "fast", EnvOf(d))
          /\ UNCHANGED <<lib, tab, turn, left, sched>>

Count(calls) == sched' = [sched EXCEPT ![Len(sched)] = @ + calls]
StepA == /\ phase = "conc" /\ turn = 1 /\ Running /\ Step
         /\ Count(UserCalls) /\ UNCHANGED <<svars, mvarsB, one, two, turn, left>>
StepB == /\ phase = "conc" /\ turn = 2 /\ B!Running /\ B!Step
         /\ Count(B!UserCalls) /\ UNCHANGED <<svars, mvars, one, two, turn, left>>
Switch == /\ phase = "conc" /\ left > 0 /\ sched[Len(sched)] > 0
          /\ IF turn = 1 THEN UserCalls > 0 /\ B!Running ELSE B!UserCalls > 0 /\ Running
          /\ turn' = 3 - turn /\ left' = left - 1 /\ sched' = Append(sched, 0)
          /\ UNCHANGED <<mvars, mvarsB, svars, one, two>>
HandOver == /\ phase = "conc"
            /\ IF turn = 1 THEN Finished /\ B!Running ELSE B!Finished /\ Running
            /\ turn' = 3 - turn
            /\ UNCHANGED <<mvars, mvarsB, svars, one, two, left, sched>>
Close == /\ phase = "conc" /\ Finished /\ B!Finished /\ phase' = "closed"
         /\ PrintT("CASE " \o ToJson([lib |-> lib, one |-> one, two |-> two, sched |-> sched]))
         /\ UNCHANGED <<mvars, mvarsB, lib, tab, cvars>>

Next == \/ SoloNext /\ UNCHANGED <<mvarsB, cvars>>
        \/ Launch \/ StepA \/ StepB \/ Switch \/ HandOver \/ Close
Spec == Init /\ [][Next]_vars

(* each parse ends as it does when run alone, and knows only true locations *)
Independent == phase \in {"conc", "closed"} =>
  /\ Finished => ret = tab[one]
  /\ B!Finished => retB = tab[two]
=============================================================================
