--------------------------------- MODULE Laws ---------------------------------
(* The laws of the combinators: rewritings of a grammar that change nothing, *)
(* neither the outcome of any parse nor its errors nor its repairs.          *)
(*                                                                           *)
(* Rewritten(g, w, j) is arena g with node j rewritten by law w; node j      *)
(* keeps its number, nodes the law needs are added at the end.               *)
EXTENDS Naturals, Sequences

Nil == [k |-> "", a |-> 0, b |-> 0, c |-> 0, ks |-> << >>, ts |-> << >>, s |-> "", v |-> "", l |-> "", n |-> 0]
Un(k, a) == [Nil EXCEPT !.k = k, !.a = a]
Bi(k, a, b) == [Nil EXCEPT !.k = k, !.a = a, !.b = b]
PureNone == [Nil EXCEPT !.k = "pure", !.s = "none"]
FmapAs(s, a) == [Nil EXCEPT !.k = "fmap", !.a = a, !.s = s]

LawNames == {"altassoc", "altcossa", "seqassoc", "seqcossa", "twice", "relabel", "purefirst", "purelast", "bindpure",
             "delay", "maybealt", "betweendef", "sepbydef", "manydef", "fmapalt", "fmapseq", "fmapswap",
             "blockaligned", "blockindented", "pick", "bindseq"}

(* parsers known to be pairs have operations of their own (then, apply)      *)
Plural(g) == {j \in 1..Len(g) : g[j].k \in {"seq", "then", "thenN"}}
Total(nd) == nd.k = "fmap" /\ nd.s # "boom"          \* a function that does not raise

Applies(g, w, j) ==
  LET nd == g[j]
      AA == IF nd.a = 0 THEN Nil ELSE g[nd.a]
      BB == IF nd.b = 0 THEN Nil ELSE g[nd.b]
  IN CASE w = "altassoc" -> nd.k = "alt" /\ AA.k = "alt"
       [] w = "altcossa" -> nd.k = "alt" /\ BB.k = "alt"
       [] w = "seqassoc" -> nd.k \in {"seql", "seqr"} /\ AA.k \in {"seql", "seqr"}
       [] w = "seqcossa" -> nd.k \in {"seql", "seqr"} /\ BB.k \in {"seql", "seqr"}
       [] w = "twice"    -> nd.k \in {"attempt", "maybe", "recover", "block"}
       [] w = "relabel"  -> nd.k = "label"
       [] w \in {"purefirst", "purelast", "bindpure", "delay"} -> j \notin Plural(g)
       [] w = "maybealt" -> nd.k = "maybe"
       [] w = "betweendef" -> nd.k = "between"
       [] w = "sepbydef" -> nd.k = "sepby"
       [] w = "manydef"  -> nd.k = "many"
       [] w = "fmapalt"  -> Total(nd) /\ AA.k = "alt"
       [] w = "fmapseq"  -> Total(nd) /\ AA.k \in {"seql", "seqr"}
       [] w = "fmapswap" -> Total(nd) /\ AA.k \in {"label", "attempt", "recover", "block", "aligned", "indented"}
       [] w \in {"blockaligned", "blockindented"} -> nd.k = "block"
       [] w = "pick"     -> nd.k \in {"seql", "seqr"}
       [] w = "bindseq"  -> nd.k = "seqr"

Rewritten(g, w, j) ==
  LET nd == g[j]
      AA == IF nd.a = 0 THEN Nil ELSE g[nd.a]
      BB == IF nd.b = 0 THEN Nil ELSE g[nd.b]
      e == Len(g) + 1
      With(new, more) == [g EXCEPT ![j] = new] \o more
  IN CASE w = "altassoc" -> With(Bi("alt", AA.a, e), <<Bi("alt", AA.b, nd.b)>>)
       [] w = "altcossa" -> With(Bi("alt", e, BB.b), <<Bi("alt", nd.a, BB.a)>>)
       \* (x . y) . z = x . (y . z), keeping the value that is kept
       [] w = "seqassoc" ->
            With(IF AA.k = "seql" /\ nd.k = "seql" THEN Bi("seql", AA.a, e) ELSE Bi("seqr", AA.a, e),
                 <<IF nd.k = "seqr" THEN Bi("seqr", AA.b, nd.b) ELSE Bi("seql", AA.b, nd.b)>>)
       [] w = "seqcossa" ->
            With(IF nd.k = "seqr" /\ BB.k = "seqr" THEN Bi("seqr", e, BB.b) ELSE Bi("seql", e, BB.b),
                 <<IF nd.k = "seql" THEN Bi("seql", nd.a, BB.a) ELSE Bi("seqr", nd.a, BB.a)>>)
       [] w = "twice"    -> With([nd EXCEPT !.a = e], <<nd>>)
       [] w = "relabel"  -> With([nd EXCEPT !.a = e], <<[nd EXCEPT !.l = "other"]>>)
       [] w = "purefirst" -> With(Bi("seqr", e, e + 1), <<PureNone, nd>>)
       [] w = "purelast" -> With(Bi("seql", e, e + 1), <<nd, PureNone>>)
       [] w = "bindpure" -> With(Bi("bind", e, e + 1), <<PureNone, nd>>)
       [] w = "delay"    -> With([Un("delay", e) EXCEPT !.n = 2], <<nd>>)
       [] w = "maybealt" -> With(Bi("alt", nd.a, e), <<PureNone>>)
       [] w = "betweendef" -> With(Bi("seqr", nd.a, e), <<Bi("seql", nd.c, nd.b)>>)
       [] w = "sepbydef" -> With(FmapAs("cons", e), <<Un("maybe", e + 1), Bi("seq", nd.a, e + 2), Un("many", e + 3),
                                                      Bi("seqr", nd.b, nd.a)>>)
       [] w = "manydef"  -> With(FmapAs("cons", e), <<Un("maybe", e + 1), Bi("seq", nd.a, e + 2), Un("many", nd.a)>>)
       [] w = "fmapalt"  -> With(Bi("alt", e, e + 1), <<[nd EXCEPT !.a = AA.a], [nd EXCEPT !.a = AA.b]>>)
       [] w = "fmapseq"  -> IF AA.k = "seql" THEN With(Bi("seql", e, AA.b), <<[nd EXCEPT !.a = AA.a]>>)
                            ELSE With(Bi("seqr", AA.a, e), <<[nd EXCEPT !.a = AA.b]>>)
       [] w = "fmapswap" -> With([AA EXCEPT !.a = e], <<[nd EXCEPT !.a = AA.a]>>)
       [] w = "blockaligned" -> With([nd EXCEPT !.a = e], <<Un("aligned", nd.a)>>)
       [] w = "blockindented" -> With([nd EXCEPT !.a = e], <<Un("indented", nd.a)>>)
       [] w = "pick"     -> With(FmapAs(IF nd.k = "seql" THEN "fst" ELSE "snd", e), <<Bi("seq", nd.a, nd.b)>>)
       [] w = "bindseq"  -> With(Bi("bind", nd.a, nd.b), << >>)

RECURSIVE Chain(_, _)
(* several rewritings, one after the other; << >> if one does not apply *)
Chain(g, ws) == IF ws = << >> THEN g
                ELSE LET w == Head(ws)[1]
                         j == Head(ws)[2]
                     IN IF w \in LawNames /\ j \in 1..Len(g) /\ Applies(g, w, j)
                        THEN Chain(Rewritten(g, w, j), Tail(ws)) ELSE << >>

Moved(g, d) == LET M(x) == IF x = 0 THEN 0 ELSE x + d
               IN [j \in 1..Len(g) |-> [g[j] EXCEPT !.a = M(g[j].a), !.b = M(g[j].b), !.c = M(g[j].c),
                                                    !.ks = [i \in 1..Len(g[j].ks) |-> M(g[j].ks[i])]]]
=============================================================================
