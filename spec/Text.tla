-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of byte codes; byte values over 127 are written as  *)
(* negative numbers, as char is signed here.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch)]
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

White == {9, 10, 11, 12, 13, 32}
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o DigitsOf(-n) ELSE DigitsOf(n)
(* a number of quarters, with as few decimals as it needs *)
RealText(q) ==
    LET a == IF q < 0 THEN -q ELSE q
        f == CASE a % 4 = 0 -> <<>> [] a % 4 = 1 -> <<46, 50, 53>> [] a % 4 = 2 -> <<46, 53>> [] OTHER -> <<46, 55, 53>>
    IN  (IF q < 0 THEN <<45>> ELSE <<>>) \o DigitsOf(a \div 4) \o f

RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))
RECURSIVE JoinSep(_, _)
JoinSep(qs, sep) == IF qs = <<>> THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o sep \o JoinSep(Tail(qs), sep)
From(t, p) == SubSeq(t, p, Len(t))
=============================================================================
