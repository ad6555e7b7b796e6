------------------------------- MODULE Values -------------------------------
(* Domains shared by all modules of the reparsec specification.              *)
(*                                                                           *)
(* Semantic values are uniform trees [t, s, n, c]:                           *)
(*   t tag, s string payload, n integer payload, c children.                 *)
(*   tok   text taken from a character stream (s = the text)                 *)
(*   obj   stream element that is an object (s = "kind:value", n = payload)  *)
(*   none / list / tup   the library's own None, list, tuple                 *)
(*   pure, f, ap, op, ins   opaque values made by user callbacks             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

T(t, s, n, c) == [t |-> t, s |-> s, n |-> n, c |-> c]
NoneV == T("none", "", 0, << >>)
ListV(vs) == T("list", "", 0, vs)
TupV(vs) == T("tup", "", 0, vs)
(* plain Python objects that are neither text nor tokens *)
RawVal(code) == CASE code = "none"  -> NoneV
                  [] code = "i0"    -> T("int", "", 0, << >>)
                  [] code = "i1"    -> T("int", "", 1, << >>)
                  [] code = "i7"    -> T("int", "", 7, << >>)
                  [] code = "false" -> T("bool", "", 0, << >>)
                  [] code = "true"  -> T("bool", "", 1, << >>)
                  [] code = "es"    -> T("tok", "", 0, << >>)
                  [] code = "sx"    -> T("tok", "it's", 0, << >>)
                  [] code = "ls"    -> T("tok", "some text that is rather longer than what most values are, 0123456789", 0, << >>)
                  [] code = "lt"    -> TupV([j \in 1..12 |-> T("int", "", j - 1, << >>)])
                  [] code = "ul"    -> ListV(<<T("tok", "a", 0, << >>)>>)
                  [] code = "nan"   -> T("float", "nan", 0, << >>)
                  [] code = "et"    -> TupV(<< >>)
                  [] code = "el"    -> ListV(<< >>)
                  [] code = "t2"    -> TupV(<<T("tok", "a", 0, << >>), T("tok", "b", 0, << >>)>>)

(* operators either build a tree or, to keep long chains flat, a checksum    *)
(* that tells operands, operators and nesting apart                          *)
Check(v) == CASE v.t = "hv" -> v.n
              [] v.t = "tok" /\ v.s = "a" -> 1
              [] v.t = "tok" /\ v.s = "b" -> 2
              [] OTHER -> 7
OpV(f, l, r) == IF f.t = "hop" THEN T("hv", "", (3 * Check(l) + 5 * Check(r) + f.n) % 10007, << >>)
                ELSE IF f.t = "rop" THEN RawVal(f.s)
                ELSE T("op", "", 0, <<f, l, r>>)

RECURSIVE KeyOf(_)
(* leftmost token of a value: what user bind callbacks dispatch on *)
KeyOf(v) == IF v.t \in {"tok", "obj"} THEN v.s
            ELSE IF Len(v.c) = 0 THEN v.t ELSE KeyOf(v.c[1])

RECURSIVE JoinStr(_, _, _)
(* the text of stream elements i..j *)
JoinStr(inp, i, j) == IF i > j THEN "" ELSE IF i = j THEN inp[i].v
                      ELSE JoinStr(inp, i, (i + j) \div 2) \o JoinStr(inp, (i + j) \div 2 + 1, j)

RECURSIVE CatStr(_)
CatStr(ss) == IF Len(ss) <= 1 THEN IF ss = << >> THEN "" ELSE ss[1]
              ELSE LET m == Len(ss) \div 2
                   IN  CatStr(SubSeq(ss, 1, m)) \o CatStr(SubSeq(ss, m + 1, Len(ss)))

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE SumOf(_)
SumOf(ns) == IF ns = << >> THEN 0 ELSE Head(ns) + SumOf(Tail(ns))

InSeq(x, ss) == \E i \in 1..Len(ss) : ss[i] = x
IndexOf(x, ss) == CHOOSE i \in 1..Len(ss) : ss[i] = x

(* source locations: offset, line, column (all 0-based) *)
L(p, l, c) == [p |-> p, l |-> l, c |-> c]

(* folding a separated list <<x0, <<op1, x1>>, <<op2, x2>>, ...>> *)
RECURSIVE FoldL(_, _)
FoldL(acc, tail) == IF tail = << >> THEN acc
                    ELSE FoldL(OpV(Head(tail).c[1], acc, Head(tail).c[2]), Tail(tail))
RECURSIVE FoldR(_, _)
FoldR(first, tail) == IF tail = << >> THEN first
                      ELSE OpV(Head(tail).c[1], first, FoldR(Head(tail).c[2], Tail(tail)))
=============================================================================
