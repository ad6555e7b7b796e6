------------------------------ MODULE MCLexer -------------------------------
(* Every specification of at most MaxAlts alternatives out of Menu, on every *)
(* text of at most MaxLen characters.                                        *)
EXTENDS Lexer, Json
CONSTANTS Menu, MaxAlts, Chars, MaxLen
VARIABLE phase
vars == <<lvars, phase>>

Alt(f, g, h, ts, v) == [f |-> f, g |-> g, h |-> h, ts |-> ts, v |-> v]
Item(x) ==
  CASE x = "as"    -> Alt("plus", "A", "", <<"a">>, "")
    [] x = "a1"    -> Alt("one", "A", "", <<"a">>, "")
    [] x = "bs"    -> Alt("plus", "B", "", <<"b">>, "")
    [] x = "abnl"  -> Alt("plus", "M", "", <<"b", NL>>, "")
    [] x = "skip"  -> Alt("plus", "", "", <<NL, "b">>, "")
    [] x = "skipa" -> Alt("one", "", "", <<"a">>, "")
    [] x = "star"  -> Alt("star", "S", "", <<"a">>, "")
    [] x = "starnl" -> Alt("star", "", "", <<NL>>, "")
    [] x = "q"     -> Alt("quoted", "Q", "", <<"a", NL>>, "b")
    [] x = "nest"  -> Alt("nest", "N", "I", <<"a", NL>>, "b")
    [] x = "two"   -> Alt("two", "T", "U", <<"a", NL>>, "b")
    [] x = "tail"  -> Alt("tail", "L", "", <<"a">>, "b")
    [] x = "lead"  -> Alt("lead", "D", "", <<"a">>, "b")
    [] x = "after" -> Alt("after", "R", "", <<"a", NL>>, "b")
    [] x = "bol"   -> Alt("bol", "O", "", <<"a", "b">>, "")
    [] x = "bos"   -> Alt("bos", "X", "", <<"a", "b">>, "")
    [] x = "ahead" -> Alt("ahead", "H", "", <<"a">>, "b")
    [] x = "eot"   -> Alt("eot", "E", "", <<"a", NL>>, "")
    [] x = "look"  -> Alt("look", "", "", << >>, "b")
Ch(x) == IF x = "NL" THEN NL ELSE x

SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
(* group names have to be different *)
Specs == {sp \in {[j \in 1..Len(xs) |-> Item(xs[j])] : xs \in SeqsUpTo(Menu, MaxAlts) \ {<< >>}} :
            \A i, j \in 1..Len(sp) : i # j => sp[i] # sp[j] /\ (sp[i].g = sp[j].g => sp[i].g = "")}
Texts == {[j \in 1..Len(xs) |-> [v |-> Ch(xs[j])]] : xs \in SeqsUpTo(Chars, MaxLen)}

Init == /\ lspec = << >> /\ text = << >> /\ pos = 0 /\ loc = L(0, 0, 0) /\ toks = << >> /\ out = ""
        /\ phase = "spec"
PickSpec == phase = "spec" /\ phase' = "text" /\ lspec' \in Specs /\ UNCHANGED <<text, pos, loc, toks, out>>
PickText == phase = "text" /\ phase' = "lex" /\ text' \in Texts /\ UNCHANGED <<lspec, pos, loc, toks, out>>
Lex == phase = "lex" /\ LexStep /\ UNCHANGED phase
Show == /\ phase = "lex" /\ out # "" /\ phase' = "done"
        /\ PrintT("CASE " \o ToJson([spec |-> lspec, text |-> text, out |-> out, toks |-> toks, loc |-> loc]))
        /\ UNCHANGED lvars
Next == PickSpec \/ PickText \/ Lex \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Lex \/ Show)
Terminates == (phase = "lex") ~> (phase = "done")
Progress == [][phase = "lex" /\ phase' = "lex" /\ out' = "" => pos' > pos]_vars
=============================================================================
