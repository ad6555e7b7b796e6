------------------------------ MODULE Location ------------------------------
(* Source locations.                                                         *)
(*                                                                           *)
(* LocAt(km, inp, pos) is the meaning: the location of stream position pos   *)
(* computed from scratch.  IncLoc(km, inp, loc, pos) is what the library     *)
(* does: it moves a previously known location forward.  That the two agree   *)
(* is property C09; it is an invariant of the parsing machine, which only    *)
(* ever uses IncLoc.                                                         *)
(*                                                                           *)
(* km (kind of location tracking):                                           *)
(*   plain   Parser.parse with its defaults: offsets only                    *)
(*   text    scannerless.parse: line and column of a text offset             *)
(*   lex     lexer.parse: start of the token at a stream index, end of the   *)
(*           last token at the end of the stream                             *)
(*   tab     a user-supplied incremental get_loc: columns with tab stops     *)
(*   abs     a user-supplied get_loc that ignores what is already known and  *)
(*           whose offsets are not stream positions and do not grow          *)
EXTENDS Values

NL == "\n"
TAB == "\t"
TabStop == 4

Newlines(inp, i, j) == {k \in i..j : inp[k].v = NL}

TextLoc(inp, pos) ==
  LET nls == Newlines(inp, 1, pos)
  IN  L(pos, Cardinality(nls), IF nls = {} THEN pos ELSE pos - MaxOf(nls))

TextInc(inp, loc, pos) ==
  LET nls == Newlines(inp, loc.p + 1, pos)
  IN  IF nls = {} THEN L(pos, loc.l, loc.c + (pos - loc.p))
      ELSE L(pos, loc.l + Cardinality(nls), pos - MaxOf(nls))

LexLoc(inp, pos) ==
  IF pos < Len(inp) THEN inp[pos + 1].o
  ELSE IF Len(inp) > 0 THEN inp[Len(inp)].z
  ELSE L(pos, 0, 0)

RECURSIVE TabInc(_, _, _)
TabInc(inp, loc, pos) ==
  IF loc.p >= pos THEN loc
  ELSE LET ch == inp[loc.p + 1].v
           nx == IF ch = NL THEN L(loc.p + 1, loc.l + 1, 0)
                 ELSE IF ch = TAB THEN L(loc.p + 1, loc.l, (loc.c \div TabStop + 1) * TabStop)
                 ELSE L(loc.p + 1, loc.l, loc.c + 1)
       IN  TabInc(inp, nx, pos)

(* offsets that fall, jump and come in equal pairs: only line and column      *)
(* together tell the place                                                   *)
AbsLoc(pos) == L((IF (pos \div 2) % 2 = 0 THEN 1000 ELSE 0) - 10 * (pos \div 2), pos \div 3, pos % 3)

IncLoc(km, inp, loc, pos) ==
  CASE km = "text" -> TextInc(inp, loc, pos)
    [] km = "lex"  -> LexLoc(inp, pos)
    [] km = "tab"  -> TabInc(inp, loc, pos)
    [] km = "abs"  -> AbsLoc(pos)
    [] OTHER       -> L(pos, 0, 0)

LocAt(km, inp, pos) ==
  CASE km = "text" -> TextLoc(inp, pos)
    [] km = "lex"  -> LexLoc(inp, pos)
    [] km = "tab"  -> TabInc(inp, L(0, 0, 0), pos)
    [] km = "abs"  -> AbsLoc(pos)
    [] OTHER       -> L(pos, 0, 0)

(* how a location is written in messages *)
LocStr(km, o) ==
  CASE km \in {"text", "lex"} -> ToString(o.l + 1) \o ":" \o ToString(o.c + 1)
    [] km = "tab"  -> "L" \o ToString(o.l) \o "C" \o ToString(o.c) \o "P" \o ToString(o.p)
    [] km = "abs"  -> "<" \o ToString(o.p) \o "/" \o ToString(o.l) \o "." \o ToString(o.c) \o ">"
    [] OTHER       -> ToString(o.p)
=============================================================================
