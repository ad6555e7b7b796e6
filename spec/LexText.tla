------------------------------ MODULE LexText -------------------------------
(* The meaning of a lexer specification: how alternatives match, and what    *)
(* splitting a text gives.                                                   *)
(*                                                                           *)
(* An alternative is a record [f form, g group, h second group, ts class of  *)
(* characters, v a character]; g = "" means the alternative is unnamed.  The *)
(* first alternative that matches is used, as in a regular expression        *)
(* g1|g2|...  The forms, as regular expressions (C = [class]):               *)
(*   plus   (?P<g>C+)          one    (?P<g>C)         star  (?P<g>C* )      *)
(*   quoted v(?P<g>C* )v       value is the inside, the span the whole       *)
(*   nest   (?P<g>v(?P<h>C* )) the outer group is the last one               *)
(*   two    (?P<g>C+)(?P<h>v)  the last group is the second                  *)
(*   tail   (?P<g>C+)(v)?      an unnamed last group: the match is skipped   *)
(*   lead   (?P<g>C+)?v        the group may not take part: skipped          *)
(*   after  (?<=v)(?P<g>C+)    bol (?m:^)(?P<g>C+)     bos ^(?P<g>C+)        *)
(*   ahead  (?P<g>C+)(?=v)     eot (?P<g>C+)\Z         look (?=v)            *)
EXTENDS Values, Location

(* a text is a sequence of [v character] *)
RECURSIVE Run(_, _, _)
Run(tx, cls, p) == IF p < Len(tx) /\ InSeq(tx[p + 1].v, cls) THEN 1 + Run(tx, cls, p + 1) ELSE 0

(* a match: ok, e end position, g last group ("" none), v its text *)
Miss == [ok |-> FALSE, e |-> 0, g |-> "", v |-> ""]
Hit(e, g, v) == [ok |-> TRUE, e |-> e, g |-> g, v |-> v]
If(c, m) == IF c THEN m ELSE Miss

Alternative(al, tx, p) ==
  LET Is(j, c) == j >= 1 /\ j <= Len(tx) /\ tx[j].v = c
      Sub(i, j) == JoinStr(tx, i + 1, j)             \* text of positions i..j-1
      n == Run(tx, al.ts, p)
      whole == Hit(p + n, al.g, Sub(p, p + n))
  IN CASE al.f = "plus" -> If(n > 0, whole)
       [] al.f = "one"  -> If(n > 0, Hit(p + 1, al.g, Sub(p, p + 1)))
       [] al.f = "star" -> whole
       [] al.f = "quoted" ->
            LET m == Run(tx, al.ts, p + 1)
            IN If(Is(p + 1, al.v) /\ Is(p + m + 2, al.v), Hit(p + m + 2, al.g, Sub(p + 1, p + m + 1)))
       [] al.f = "nest" ->
            LET m == Run(tx, al.ts, p + 1)
            IN If(Is(p + 1, al.v), Hit(p + m + 1, al.g, Sub(p, p + m + 1)))
       [] al.f = "two"  -> If(n > 0 /\ Is(p + n + 1, al.v), Hit(p + n + 1, al.h, al.v))
       [] al.f = "tail" -> If(n > 0, IF Is(p + n + 1, al.v) THEN Hit(p + n + 1, "", "") ELSE whole)
       [] al.f = "lead" -> If(Is(p + n + 1, al.v),
                              IF n > 0 THEN Hit(p + n + 1, al.g, Sub(p, p + n)) ELSE Hit(p + 1, "", ""))
       [] al.f = "after" -> If(n > 0 /\ Is(p, al.v), whole)
       [] al.f = "bol"  -> If(n > 0 /\ (p = 0 \/ Is(p, NL)), whole)
       [] al.f = "bos"  -> If(n > 0 /\ p = 0, whole)
       [] al.f = "ahead" -> If(n > 0 /\ Is(p + n + 1, al.v), whole)
       [] al.f = "eot"  -> If(n > 0 /\ p + n = Len(tx), whole)
       [] al.f = "look" -> If(Is(p + 1, al.v), Hit(p, "", ""))

RECURSIVE FirstOf(_, _, _, _)
FirstOf(sp, j, tx, p) ==
  IF j > Len(sp) THEN Miss
  ELSE LET m == Alternative(sp[j], tx, p) IN IF m.ok THEN m ELSE FirstOf(sp, j + 1, tx, p)

(* What splitting a text means: the tokens, or where it is stuck.  Locations *)
(* are those of the text, computed from scratch.                             *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(sp, tx, p) ==
  IF p = Len(tx) THEN [k |-> "tokens", at |-> p, toks |-> << >>]
  ELSE LET m == FirstOf(sp, 1, tx, p)
       IN IF ~m.ok \/ m.e = p THEN [k |-> "lexerror", at |-> p, toks |-> << >>]
          ELSE LET r == SplitFrom(sp, tx, m.e)
               IN IF m.g = "" THEN r
                  ELSE [r EXCEPT !.toks = <<[k |-> m.g, v |-> m.v, o |-> TextLoc(tx, p), z |-> TextLoc(tx, m.e)]>> \o @]
Split(sp, tx) == SplitFrom(sp, tx, 0)
=============================================================================
