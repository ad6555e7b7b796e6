------------------------------ MODULE History -------------------------------
(* Everything a client can do with a few parsers, one call after another:    *)
(* parse, unwrap any result obtained so far in either way, map a result.     *)
(* Whatever came before, an outcome is that of the same parse done alone.    *)
EXTENDS Solo

CONSTANTS MaxEvents, MaxHandles
VARIABLES handles, hist, seen
(* handles: <<combo, names of the functions mapped over it>>;                *)
(* seen: outcome of the last unwrap                                          *)
hvars == <<handles, hist, seen>>
vars == <<mvars, svars, hvars>>

RECURSIVE MapAll(_, _)
MapAll(v, ns) == IF ns = << >> THEN v ELSE MapAll(T("f", "", Head(ns), <<v>>), Tail(ns))
Outcome(h, u) == LET o == Unwrap(tab[handles[h][1]], u)
                 IN IF o.k = "val" THEN [o EXCEPT !.v = MapAll(o.v, handles[h][2])] ELSE o

Open == phase = "client" /\ Len(hist) < MaxEvents
Parse == /\ Open /\ Len(handles) < MaxHandles
         /\ \E c \in 1..Len(Combos) :
              /\ handles' = IF tab[c].k = "exc" THEN handles ELSE Append(handles, <<c, << >>>>)
              /\ hist' = Append(hist, <<"p", c, 0>>)
              /\ seen' = IF tab[c].k = "exc" THEN Thrown(tab[c].e[1]) ELSE seen
         /\ UNCHANGED <<mvars, svars>>
UnwrapH == /\ Open
           /\ \E h \in 1..Len(handles), u \in BOOLEAN :
                /\ hist' = Append(hist, <<"u", h, IF u THEN 1 ELSE 0>>)
                /\ seen' = Outcome(h, u)
           /\ UNCHANGED <<mvars, svars, handles>>
Fmap == /\ Open /\ Len(handles) < MaxHandles
        /\ \E h \in 1..Len(handles) :
             /\ Len(handles[h][2]) < 1
             /\ handles' = Append(handles, <<handles[h][1], Append(handles[h][2], 3)>>)
             /\ hist' = Append(hist, <<"f", h, 3>>)
        /\ UNCHANGED <<mvars, svars, seen>>
Close == /\ phase = "client" /\ Len(hist) = MaxEvents /\ phase' = "closed"
         /\ PrintT("CASE " \o ToJson([lib |-> lib, h |-> hist]))
         /\ UNCHANGED <<mvars, lib, tab, hvars>>

Init == SoloInit /\ handles = << >> /\ hist = << >> /\ seen = Val(NoneV)
Next == (SoloNext /\ UNCHANGED hvars) \/ Parse \/ UnwrapH \/ Fmap \/ Close
Spec == Init /\ [][Next]_vars

(* the outcome of an unwrap does not depend on what came before it *)
HistoryFree == hist # << >> /\ hist[Len(hist)][1] = "u" =>
  LET e == hist[Len(hist)]
      o == Unwrap(tab[handles[e[2]][1]], e[3] = 1)
  IN seen.k = o.k /\ seen.e = o.e
(* unwrapping twice gives the same *)
TableFixed == [][phase # "prepare" => tab' = tab]_vars
=============================================================================
