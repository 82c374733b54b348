------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The value domain of libube: scalars, and a heap of reference counted    *)
(* cells (arrays, maps, views).  A value is a tuple whose first component  *)
(* is a tag:                                                               *)
(*   <<"n">>          nil                                                  *)
(*   <<"c",x>>        char (code), <<"i",x>> int, <<"l",x>> long           *)
(*   <<"f",x>>        float, <<"d",x>> double : x is in quarters           *)
(*   <<"y",<<r,m>>>>  complex float, r and m in quarters                   *)
(*   <<"z",<<r,m>>>>  an element of a complex double array.  A variable    *)
(*                    never holds one: it becomes a one element array      *)
(*   <<"h",id>>       a holder of the heap cell id                         *)
(* A state is [v |-> values of the program variables, h |-> cells].        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == -99999                       \* an element that was never given a value
Nil == <<"n">>
Ref(i) == <<"h", i>>
IsRef(x) == x[1] = "h"
IsNil(x) == x[1] = "n"
IsScalar(x) == x[1] \notin {"h", "n"}

TypeNo(t) == CASE t = "c" -> 1 [] t = "i" -> 2 [] t = "l" -> 3 [] t = "f" -> 4
               [] t = "d" -> 5 [] t = "y" -> 6 [] t = "z" -> 7 [] t = "v" -> 8
               [] t = "p" -> 9
TypeOf(x) == IF x[1] \in {"h", "n", "z"} THEN 0 ELSE TypeNo(x[1])

IsCx(t) == t \in {"y", "z"}
IsInt(t) == t \in {"c", "i", "l"}
UOf(t) == IF IsCx(t) THEN <<U, U>> ELSE U

(* Cells: an array of elements of type t, a map of pairs, a view *)
Arr(t, e) == [k |-> "a", t |-> t, e |-> e, b |-> 0, o |-> 0, d |-> <<>>]
Map(e) == [k |-> "m", t |-> "p", e |-> e, b |-> 0, o |-> 0, d |-> <<>>]
Win(b, o, d) == [k |-> "w", t |-> "w", e |-> <<>>, b |-> b, o |-> o, d |-> d]

(***************************************************************************)
(* Conversions of scalars: the C++ ones, and numbers spelt by strings.     *)
(***************************************************************************)
Trunc(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
Quarter(t, x) == IF IsCx(t) THEN x[1] ELSE IF IsInt(t) THEN 4 * x ELSE x
FromQuarter(t, q) == IF IsCx(t) THEN <<q, 0>> ELSE IF IsInt(t) THEN Trunc(q) ELSE q
(* Integers here have 32 bits; codes from 500000001 stand for wide ones in
   the library: 2^31 + 1, 2^32 + 1, 2^40 + 1, 2^52 - 1, 2^62, and codes from
   2000000004 (in quarters) for the same as reals.  Narrow types do not hold
   them. *)
WideCode == 500000001
IsWide(t, x) == IF t = "l" THEN x >= WideCode \/ x <= -WideCode
                ELSE IF t = "d" THEN x >= 4 * WideCode \/ x <= -4 * WideCode
                ELSE IF t = "z" THEN x[1] >= 4 * WideCode \/ x[1] <= -4 * WideCode
                ELSE FALSE
(* numbers of quarters that a float holds (not all of them) *)
InFloat(q) == (q < 16777216 /\ q > -16777216) \/ (q % 4 = 0 /\ q < 67108864 /\ q > -67108864)
(* bytes wrap around; a real number out of range gives anything *)
ToChar(from, x) == IF x \in -128..127 THEN x ELSE IF IsInt(from) THEN ((x + 128) % 256) - 128 ELSE U
Conv(from, to, x) ==
    IF from = to THEN x
    ELSE IF (IF IsCx(from) THEN x[1] ELSE x) = U THEN (IF IsCx(to) THEN <<U, U>> ELSE U)
    ELSE IF to \notin {"l", "d", "z"} /\ IsWide(from, x) THEN (IF IsCx(to) THEN <<U, U>> ELSE U)
    ELSE IF to \in {"f", "y"} /\ from \notin {"f", "y"} /\ ~(IF IsCx(from) /\ IsCx(to) THEN InFloat(x[1]) /\ InFloat(x[2]) ELSE InFloat(Quarter(from, x)))
         THEN (IF IsCx(to) THEN <<U, U>> ELSE U)
    ELSE IF IsCx(from) /\ IsCx(to) THEN x
    ELSE IF to = "c" THEN ToChar(from, FromQuarter("i", Quarter(from, x)))
    ELSE FromQuarter(to, Quarter(from, x))

Blank == {9, 10, 11, 12, 13, 32}
Digit == 48..57
RECURSIVE SkipBlank(_), SpanDigits(_)
SkipBlank(s) == IF s # <<>> /\ Head(s) \in Blank THEN SkipBlank(Tail(s)) ELSE s
SpanDigits(s) == IF s # <<>> /\ Head(s) \in Digit THEN 1 + SpanDigits(Tail(s)) ELSE 0
RECURSIVE Decimal(_, _)
Decimal(s, acc) == IF s = <<>> THEN acc ELSE Decimal(Tail(s), 10 * acc + Head(s) - 48)

(* The integer a string starts with.  Excluded: long ones *)
StrInt(s0) ==
    LET s == SkipBlank(s0)
        neg == s # <<>> /\ Head(s) = 45
        u == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
        n == SpanDigits(u)
        x == Decimal(SubSeq(u, 1, n), 0)
    IN  IF n = 0 THEN [ok |-> "throw", x |-> 0]
        ELSE IF n > 7 THEN [ok |-> "skip", x |-> 0]
        ELSE [ok |-> "ok", x |-> IF neg THEN -x ELSE x]

(* The real number a string starts with, in quarters, and what follows it. *)
(* An exponent without digits is an error.  Excluded: numbers that are not *)
(* multiples of a quarter, and large ones                                  *)
RECURSIVE SpanZeros(_), Tens(_)
SpanZeros(s) == IF s # <<>> /\ Head(s) = 48 THEN 1 + SpanZeros(Tail(s)) ELSE 0
Tens(n) == IF n = 0 THEN 1 ELSE 10 * Tens(n - 1)
After(s, n) == SubSeq(s, n + 1, Len(s))
StrReal(s0) ==
    LET s == SkipBlank(s0)
        neg == s # <<>> /\ Head(s) = 45
        u == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
        n1 == SpanDigits(u)
        w1 == After(u, n1)
        dot == w1 # <<>> /\ Head(w1) = 46
        n2 == IF dot THEN SpanDigits(Tail(w1)) ELSE 0
        w2 == IF dot THEN After(w1, n2 + 1) ELSE w1
        mant == n1 + n2 > 0
        sci == mant /\ w2 # <<>> /\ Head(w2) \in {69, 101}
        w3 == IF sci THEN Tail(w2) ELSE w2
        eneg == sci /\ w3 # <<>> /\ Head(w3) = 45
        w4 == IF sci /\ w3 # <<>> /\ Head(w3) \in {43, 45} THEN Tail(w3) ELSE w3
        n3 == IF sci THEN SpanDigits(w4) ELSE 0
        ms == SubSeq(u, 1, n1) \o (IF dot THEN SubSeq(Tail(w1), 1, n2) ELSE <<>>)
        sig == After(ms, SpanZeros(ms))
        m == 4 * Decimal(sig, 0)
        ex == IF n3 > 0 THEN Decimal(SubSeq(w4, 1, n3), 0) ELSE 0
        e == (IF eneg THEN -ex ELSE ex) - n2
        q == IF e >= 0 THEN m * Tens(e) ELSE m \div Tens(-e)
        rest == After(w4, n3)
    IN  IF ~mant \/ (sci /\ n3 = 0) THEN [ok |-> "throw", x |-> 0, rest |-> rest]
        ELSE IF sig = <<>> THEN [ok |-> "ok", x |-> 0, rest |-> rest]
        ELSE IF Len(sig) > 6 \/ n3 > 2 \/ e > 2 \/ e < -6 THEN [ok |-> "skip", x |-> 0, rest |-> rest]
        ELSE IF e < 0 /\ m % Tens(-e) # 0 THEN [ok |-> "skip", x |-> 0, rest |-> rest]
        ELSE IF q > 400000 THEN [ok |-> "skip", x |-> 0, rest |-> rest]
        ELSE [ok |-> "ok", x |-> IF neg THEN -q ELSE q, rest |-> rest]
(* a complex number: 1, (1) or (1,2) *)
StrCx(s0) ==
    LET s == SkipBlank(s0)
        no == [ok |-> "throw", x |-> <<0, 0>>]
        fail(r) == [ok |-> r.ok, x |-> <<0, 0>>]
    IN  IF s = <<>> THEN no
        ELSE IF Head(s) # 40
        THEN LET r == StrReal(s) IN IF r.ok = "ok" THEN [ok |-> "ok", x |-> <<r.x, 0>>] ELSE fail(r)
        ELSE LET r == StrReal(Tail(s))
                 t == SkipBlank(r.rest)
             IN  IF r.ok # "ok" THEN fail(r)
                 ELSE IF t = <<>> THEN no
                 ELSE IF Head(t) = 41 THEN [ok |-> "ok", x |-> <<r.x, 0>>]
                 ELSE IF Head(t) # 44 THEN no
                 ELSE LET i == StrReal(Tail(t))
                          v == SkipBlank(i.rest)
                      IN  IF i.ok # "ok" THEN fail(i)
                          ELSE IF v # <<>> /\ Head(v) = 41 THEN [ok |-> "ok", x |-> <<r.x, i.x>>] ELSE no

(* Conversion of a string to type t *)
StrConv(to, s) ==
    IF to = "c"
    THEN LET u == SkipBlank(s) IN [ok |-> IF u # <<>> THEN "ok" ELSE "throw", x |-> IF u = <<>> THEN 0 ELSE Head(u)]
    ELSE IF IsCx(to) THEN StrCx(s)
    ELSE IF IsInt(to) THEN StrInt(s)
    ELSE LET r == StrReal(s) IN [ok |-> r.ok, x |-> r.x]

(***************************************************************************)
(* Elements of a cell                                                      *)
(***************************************************************************)
RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE Head(d) * Prod(Tail(d))
StrideOf(d, i) == Prod(SubSeq(d, i + 1, Len(d)))

CSize(c) == IF c.k = "w" THEN Prod(c.d) ELSE Len(c.e)
BaseOf(h, i) == IF h[i].k = "w" THEN h[i].b ELSE i
OffOf(h, i) == IF h[i].k = "w" THEN h[i].o ELSE 0
AType(h, i) == h[BaseOf(h, i)].t
(* The i-th (from 0) element of a cell, as a value *)
Item(h, id, i) ==
    LET c == h[BaseOf(h, id)]
        x == c.e[OffOf(h, id) + i + 1]
    IN  IF c.k = "m" THEN x[2] ELSE IF c.t = "v" THEN x ELSE <<c.t, x>>
Size(h, x) == IF IsNil(x) THEN 0 ELSE IF IsRef(x) THEN CSize(h[x[2]]) ELSE 1
IsMap(h, x) == IsRef(x) /\ h[x[2]].k = "m"
IsView(h, x) == IsRef(x) /\ h[x[2]].k = "w"
IsStr(h, x) == IsRef(x) /\ AType(h, x[2]) = "c"
Codes(h, x) == [i \in 1..Size(h, x) |-> Item(h, x[2], i - 1)[2]]

(***************************************************************************)
(* Equality and order of values: by content, lexicographic                 *)
(***************************************************************************)
RECURSIVE Eq(_, _, _), Lt(_, _, _), LtFrom(_, _, _, _)
Eq(h, a, b) ==
    IF TypeOf(a) # TypeOf(b) \/ Size(h, a) # Size(h, b) THEN FALSE
    ELSE IF TypeOf(a) # 0 THEN a[2] = b[2]
    \* a complex double is also an array of one
    ELSE IF a[1] = "z" /\ b[1] = "z" THEN a[2] = b[2]
    ELSE IF a[1] = "z" THEN IsRef(b) /\ AType(h, b[2]) = "z" /\ Item(h, b[2], 0) = a
    ELSE IF b[1] = "z" THEN IsRef(a) /\ AType(h, a[2]) = "z" /\ Item(h, a[2], 0) = b
    ELSE IF IsNil(a) \/ IsNil(b) THEN a[1] = b[1]
    ELSE IF a = b THEN TRUE
    ELSE /\ IsMap(h, a) = IsMap(h, b)
         /\ \A i \in 0..Size(h, a) - 1 :
              /\ Eq(h, Item(h, a[2], i), Item(h, b[2], i))
              /\ IsMap(h, a) => Eq(h, h[a[2]].e[i+1][1], h[b[2]].e[i+1][1])
Lt(h, a, b) ==
    IF TypeOf(a) # TypeOf(b) THEN TypeOf(a) < TypeOf(b)
    ELSE IF a[1] = "c" THEN a[2] % 256 < b[2] % 256     \* bytes are unsigned
    ELSE IF TypeOf(a) # 0 THEN a[2] < b[2]
    ELSE IF IsNil(a) \/ IsNil(b) THEN IsNil(a) /\ ~IsNil(b)
    ELSE IF IsMap(h, a) # IsMap(h, b) THEN ~IsMap(h, a)
    ELSE LtFrom(h, a, b, 0)
LtFrom(h, a, b, i) ==
    IF i = Size(h, b) THEN FALSE
    ELSE IF i = Size(h, a) THEN TRUE
    ELSE LET m == IsMap(h, a)
             ka == h[a[2]].e[i+1][1]
             kb == h[b[2]].e[i+1][1]
             x == Item(h, a[2], i)
             y == Item(h, b[2], i)
         IN  IF m /\ Lt(h, ka, kb) THEN TRUE
             ELSE IF m /\ Lt(h, kb, ka) THEN FALSE
             ELSE IF Lt(h, x, y) THEN TRUE
             ELSE IF Lt(h, y, x) THEN FALSE
             ELSE LtFrom(h, a, b, i + 1)

(* Does a value contain a complex number or an element never given a value? *)
RECURSIVE Unordered(_, _), HasU(_, _)
Unordered(h, x) ==
    IF IsRef(x)
    THEN \/ IsCx(AType(h, x[2]))
         \/ \E i \in 0..Size(h, x) - 1 : Unordered(h, Item(h, x[2], i))
    ELSE IsCx(x[1])
HasU(h, x) ==
    IF IsRef(x) THEN \E i \in 0..Size(h, x) - 1 : HasU(h, Item(h, x[2], i))
    ELSE IF IsNil(x) THEN FALSE
    ELSE IF IsCx(x[1]) THEN U \in {x[2][1], x[2][2]} ELSE x[2] = U

(***************************************************************************)
(* Reachability: what is not reachable from a variable is released.        *)
(* Canon drops the released cells and renumbers the others in depth first  *)
(* order, so that equal graphs are equal states.                           *)
(***************************************************************************)
Kids(c) ==
    IF c.k = "w" THEN <<Ref(c.b)>>
    ELSE IF c.k = "m" THEN [i \in 1..2 * Len(c.e) |-> c.e[(i + 1) \div 2][2 - (i % 2)]]
    ELSE IF c.t = "v" THEN c.e ELSE <<>>
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Dfs(_, _, _)
Dfs(h, todo, ord) ==
    IF todo = <<>> THEN ord
    ELSE LET x == Head(todo)
         IN  IF ~IsRef(x) THEN Dfs(h, Tail(todo), ord)
             ELSE IF InSeq(x[2], ord) THEN Dfs(h, Tail(todo), ord)
             ELSE Dfs(h, Kids(h[x[2]]) \o Tail(todo), Append(ord, x[2]))
Pos(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
Canon(s) ==
    LET ord == Dfs(s.h, s.v, <<>>)
        rn(x) == IF IsRef(x) THEN Ref(Pos(x[2], ord)) ELSE x
        cell(c) == IF c.k = "w" THEN [c EXCEPT !.b = Pos(c.b, ord)]
                   ELSE IF c.k = "m" THEN [c EXCEPT !.e = [i \in 1..Len(c.e) |-> <<rn(c.e[i][1]), rn(c.e[i][2])>>]]
                   ELSE IF c.t = "v" THEN [c EXCEPT !.e = [i \in 1..Len(c.e) |-> rn(c.e[i])]]
                   ELSE c
    IN  [v |-> [i \in 1..Len(s.v) |-> rn(s.v[i])],
         h |-> [i \in 1..Len(ord) |-> cell(s.h[ord[i]])]]

(* Can cell "to" be reached from value x? *)
Reaches(h, x, to) == InSeq(to, Dfs(h, <<x>>, <<>>))
Acyclic(h) == \A i \in 1..Len(h) :
                 ~InSeq(i, Dfs(h, Kids(h[i]), <<>>))

(* Well-formedness of a state *)
SortedMap(h, c) == \A i \in 1..Len(c.e) - 1 : Lt(h, c.e[i][1], c.e[i+1][1])
WellFormed(s) ==
    /\ Acyclic(s.h)
    /\ \A i \in 1..Len(s.h) :
         LET c == s.h[i] IN
         /\ c.k = "m" => SortedMap(s.h, c)
         /\ c.k = "w" => /\ s.h[c.b].k = "a" /\ c.o >= 0
                         /\ c.o + Prod(c.d) <= Len(s.h[c.b].e)
    /\ Canon(s) = s
=============================================================================
