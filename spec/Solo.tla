-------------------------------- MODULE Solo --------------------------------
(* A library of parsers and inputs shared by the client models, and the      *)
(* outcome of every parse when it is run alone.                              *)
(* Lib[x]: nodes, defd, inputs, km, and combos, a list of [r, i, m, mi]:     *)
(* parse input i with parser r in mode m.                                    *)
EXTENDS Machine, Json, IOUtils

Lib == JsonDeserialize(IOEnv.LIB_FILE)
SoloGraph(g) == Lib[g].nodes
SoloInput(i) == Lib[i[1]].inputs[i[2]]

VARIABLES lib, tab, phase
svars == <<lib, tab, phase>>

Combos == Lib[lib].combos
SetOf(s) == {s[j] : j \in 1..Len(s)}
EnvOf(c) == [g |-> lib, i |-> <<lib, Combos[c].i>>, km |-> Lib[lib].km, mi |-> Combos[c].mi, defd |-> SetOf(Lib[lib].defd)]

SoloInit == /\ lib \in 1..Len(Lib) /\ tab = << >> /\ phase = "prepare"
            /\ env = [g |-> lib, i |-> <<lib, 1>>, km |-> "plain", mi |-> 0, defd |-> {}]
            /\ pc = "idle" /\ cal = Cal(0, 0, Ctx0, TRUE, -1, -1) /\ ret = Exc("none")
            /\ stk = << >> /\ fnlog = {}
SoloBegin == /\ phase = "prepare" /\ pc = "idle" /\ Len(tab) < Len(Combos)
             /\ LET c == Len(tab) + 1 IN StartRun(Combos[c].r, Combos[c].m = "fast", EnvOf(c))
             /\ UNCHANGED svars
SoloStep == phase = "prepare" /\ Running /\ Step /\ UNCHANGED svars
SoloEnd == /\ phase = "prepare" /\ Finished
           /\ tab' = Append(tab, ret) /\ pc' = "idle"
           /\ UNCHANGED <<env, cal, ret, stk, fnlog, lib, phase>>
SoloDone == /\ phase = "prepare" /\ pc = "idle" /\ Len(tab) = Len(Combos)
            /\ phase' = "client"
            /\ PrintT("TABLE " \o ToJson([lib |-> lib,
                  o |-> [c \in 1..Len(Combos) |-> [f |-> Unwrap(tab[c], FALSE), t |-> Unwrap(tab[c], TRUE)]]]))
            /\ UNCHANGED <<mvars, lib, tab>>
SoloNext == SoloBegin \/ SoloStep \/ SoloEnd \/ SoloDone
=============================================================================
