------------------------------ MODULE Transform ------------------------------
(***************************************************************************)
(* Discrete Fourier transforms, polynomials from roots and roots of        *)
(* polynomials.  A transform is exact here: a combination of powers of     *)
(* w = exp(-2 pi i / N) with whole coefficients (in quarters); what the    *)
(* library gives is compared with the value of that, to rounding.          *)
(***************************************************************************)
EXTENDS Linear

RECURSIVE InOrder(_), Joined(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o InOrder(S \ {m})
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Joined(Tail(q))

CxOf(t) == IF t = "f" THEN "y" ELSE IF t = "d" THEN "z" ELSE t
Pair(t, x) == IF IsCx(t) THEN x ELSE <<x, 0>>
Times(n, x) == <<n * x[1], n * x[2]>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>

(***************************************************************************)
(* sum over j of x[j] w^(jk), divided by den: the coefficient of each      *)
(* power of w, where it is not zero                                        *)
(***************************************************************************)
Mod(a, n) == a % n
NonZero(x) == InOrder({j \in 1..Len(x) : x[j] # <<0, 0>>})
Cyc(x, nz, n, k, den, p) ==      \* one term for each x that is not 0
    <<"cyc", n, den, p, [i \in 1..Len(nz) |-> LET j == nz[i] IN <<Mod((j - 1) * k, n), x[j][1], x[j][2]>>]>>
Precision(t) == IF t \in {"f", "y"} THEN "f" ELSE "d"
(* the whole spectrum of a real signal, from its first half *)
Whole(x, n) == [k \in 1..n |-> IF k <= Len(x) THEN x[k] ELSE <<x[n - k + 2][1], -x[n - k + 2][2]>>]
(* one row, of t as the type of the time domain; d: "f" forward, "b" backward *)
Trans(d, t, n, x) ==
    IF d = "f" THEN LET nz == NonZero(x) IN [k \in 1..(IF IsCx(t) THEN n ELSE n \div 2 + 1) |-> Cyc(x, nz, n, k - 1, 1, Precision(t))]
    ELSE LET y == IF IsCx(t) THEN x ELSE Whole(x, n)
             nz == NonZero(y)
         IN  [k \in 1..n |-> Cyc(y, nz, n, Mod(n - (k - 1), n), n, Precision(t))]
(* the spectrum of a real signal has real ends *)
RealEnds(x, n) == x[1][2] = 0 /\ (n % 2 = 0 => x[Len(x)][2] = 0)

InSize(d, t, n) == IF d = "b" /\ ~IsCx(t) THEN n \div 2 + 1 ELSE n
OutSize(d, t, n) == IF d = "f" /\ ~IsCx(t) THEN n \div 2 + 1 ELSE n
InType(d, t) == IF d = "f" THEN t ELSE CxOf(t)
OutType(d, t) == IF d = "f" THEN CxOf(t) ELSE t
IsPlainMap(h, x) == IsRef(x) /\ IsMap(h, x)
Unknown(t, n) == [i \in 1..n |-> UOf(t)]

(* can x be transformed? "ok", "throw" or "skip" *)
DftIn(h, d, t, n, x) ==
    IF t \notin FloatTypes \/ n < 1 \/ n > 100000 THEN "throw"
    ELSE IF ~IsRef(x) THEN "throw"
    ELSE IF IsMap(h, x) THEN "skip"
    ELSE IF AType(h, x[2]) # InType(d, t) THEN "throw"
    ELSE IF Low(ShapeOf(h, x)) # InSize(d, t, n) THEN "throw"
    ELSE IF Size(h, x) = 0 THEN "skip" ELSE "ok"
Rows(h, x, n) == [i \in 1..Size(h, x) \div n |-> [j \in 1..n |-> Pair(ElemType(h, x), Elem(h, x, (i - 1) * n + j - 1))]]
KnownCx(rows) == \A i \in 1..Len(rows) : \A j \in 1..Len(rows[i]) : /\ rows[i][j][1] # U /\ Abs(rows[i][j][1]) < 10000000
                                                                    /\ rows[i][j][2] # U /\ Abs(rows[i][j][2]) < 10000000
(* what is expected of the result: nothing when something in it is unknown *)
Expect(d, t, n, rows) ==
    IF ~KnownCx(rows) THEN U
    ELSE IF d = "b" /\ ~IsCx(t) /\ \E i \in 1..Len(rows) : ~RealEnds(rows[i], n) THEN U
    ELSE [i \in 1..Len(rows) |-> Trans(d, t, n, rows[i])]
Dft(s, d, t, n, x) ==
    LET ok == DftIn(s.h, d, t, n, x) IN
    IF ok # "ok" THEN [o |-> Out(s, Nil, ok), r |-> U]
    ELSE LET g == Front1(ShapeOf(s.h, x)) \o <<OutSize(d, t, n)>>
             q == Shaped(s, OutType(d, t), g, Unknown(OutType(d, t), Prod(g)))
         IN  [o |-> Out(q.s, q.x, "ok"), r |-> Expect(d, t, n, Rows(s.h, x, InSize(d, t, n)))]
(* there and back: the same again, to rounding of the largest *)
RECURSIVE Largest(_, _)
Largest(q, m) == IF q = <<>> THEN m ELSE LET a == Abs(Head(q)[1]) + Abs(Head(q)[2]) IN Largest(Tail(q), IF a > m THEN a ELSE m)
DftBack(s, t, n, x) ==
    LET ok == DftIn(s.h, "f", t, n, x) IN
    IF ok # "ok" THEN [o |-> Out(s, Nil, ok), r |-> U]
    ELSE LET g == ShapeOf(s.h, x)
             q == Shaped(s, t, g, Unknown(t, Prod(g)))
             rows == Rows(s.h, x, n)
         IN  [o |-> Out(q.s, q.x, "ok"),
              r |-> IF ~KnownCx(rows) THEN U
                    ELSE [i \in 1..Len(rows) |-> [j \in 1..n |-> <<"cyc", 1, 1, Precision(t), <<<<0, rows[i][j][1], rows[i][j][2]>>>>, Largest(rows[i], 0)>>]]]
(* into a place: y, which must be an array of the result's type and shape *)
DftInto(s, d, t, n, x, y) ==
    LET ok == DftIn(s.h, d, t, n, x) IN
    IF ok # "ok" THEN [o |-> Out(s, Nil, ok), r |-> U]
    ELSE IF ~IsRef(y) THEN [o |-> Throw(s), r |-> U]
    ELSE IF IsMap(s.h, y) THEN [o |-> Skip(s), r |-> U]
    ELSE IF AType(s.h, y[2]) # OutType(d, t) THEN [o |-> Throw(s), r |-> U]
    ELSE IF Low(ShapeOf(s.h, y)) # OutSize(d, t, n) THEN [o |-> Throw(s), r |-> U]
    ELSE IF Size(s.h, y) \div OutSize(d, t, n) # Size(s.h, x) \div InSize(d, t, n) THEN [o |-> Throw(s), r |-> U]
    ELSE IF x = y THEN [o |-> Throw(s), r |-> U]
    ELSE IF BaseOf(s.h, x[2]) = BaseOf(s.h, y[2]) THEN [o |-> Skip(s), r |-> U]       \* Excluded: overlapping
    ELSE LET b == BaseOf(s.h, y[2])
             f == OffOf(s.h, y[2])
             m == Size(s.h, y)
             h2 == [s.h EXCEPT ![b].e = [i \in 1..Len(@) |-> IF i > f /\ i <= f + m THEN UOf(OutType(d, t)) ELSE @[i]]]
         IN  [o |-> Out([s EXCEPT !.h = h2], Nil, "ok"), r |-> Expect(d, t, n, Rows(s.h, x, InSize(d, t, n)))]

(***************************************************************************)
(* The monic polynomial with given roots: highest power first              *)
(***************************************************************************)
RECURSIVE Expand(_, _, _)
One(t) == IF IsCx(t) THEN <<4, 0>> ELSE 4
(* p times (x - r) *)
GrowBy(t, p, r) ==
    LET mul(i) == IF i = 1 THEN [ok |-> "ok", x |-> Zero(t)] ELSE Op1(t, "mul", r, p[i - 1])
        sub(i) == LET m == mul(i) IN
                  IF m.ok # "ok" THEN m ELSE Op1(t, "sub", IF i <= Len(p) THEN p[i] ELSE Zero(t), m.x)
    IN  [i \in 1..Len(p) + 1 |-> sub(i)]
Expand(t, e, p) ==
    IF e = <<>> THEN [ok |-> "ok", x |-> p]
    ELSE LET g == GrowBy(t, p, Head(e)) IN
         IF \E i \in 1..Len(g) : g[i].ok # "ok" THEN [ok |-> "skip", x |-> p]
         ELSE Expand(t, Tail(e), [i \in 1..Len(g) |-> g[i].x])
Poly(s, x) ==
    IF ~IsRef(x) THEN Throw(s)
    ELSE IF IsMap(s.h, x) \/ Size(s.h, x) = 0 THEN Skip(s)     \* Excluded: no roots at all
    ELSE IF AType(s.h, x[2]) \notin FloatTypes THEN Throw(s)
    ELSE LET t == AType(s.h, x[2])
             d == ShapeOf(s.h, x)
             n == Low(d)
             r == [i \in 1..Prod(Front1(d)) |-> LET e == RowOf(s.h, x, i, n) IN
                      IF \E j \in 1..n : HasU1(t, e[j]) THEN [ok |-> "skip", x |-> <<>>] ELSE Expand(t, e, <<One(t)>>)]
         IN  IF \E i \in 1..Len(r) : r[i].ok # "ok" THEN Skip(s)
             ELSE LET q == Shaped(s, t, Front1(d) \o <<n + 1>>, Joined([i \in 1..Len(r) |-> r[i].x]))
                  IN  Out(q.s, q.x, "ok")

(***************************************************************************)
(* The roots of a real polynomial, where they are whole numbers or pairs   *)
(* a + bi, a - bi of such: found by dividing                               *)
(***************************************************************************)
RECURSIVE Horner(_, _, _), Deflate(_, _, _), Divide2(_, _, _, _), Factor(_)
Horner(p, r, a) == IF p = <<>> THEN a ELSE Horner(Tail(p), r, a * r + Head(p))
Deflate(p, r, a) == IF Len(p) = 1 THEN <<>> ELSE <<a * r + Head(p)>> \o Deflate(Tail(p), r, a * r + Head(p))
(* p divided by x^2 + u x + v: quotient and remainder together *)
Divide2(p, u, v, q) ==
    IF p = <<>> THEN q
    ELSE LET n == Len(q)
             b1 == IF n >= 1 THEN q[n] ELSE 0
             b2 == IF n >= 2 THEN q[n - 1] ELSE 0
         IN  Divide2(Tail(p), u, v, Append(q, IF Len(p) = 1 THEN Head(p) - v * b2 ELSE Head(p) - u * b1 - v * b2))
Small == -4..4
Found(p) == {r \in Small : Horner(p, r, 0) = 0}
Found2(p) == {z \in (-3..3) \X (1..3) :
                 LET q == Divide2(p, -2 * z[1], z[1] * z[1] + z[2] * z[2], <<>>)
                 IN  q[Len(q)] = 0 /\ q[Len(q) - 1] = 0}
NoFactor == <<<<U, U>>>>
Factor(p) ==
    IF Len(p) = 1 THEN <<>>
    ELSE LET f == Found(p) IN
         IF f # {}
         THEN LET r == CHOOSE x \in f : \A y \in f : x <= y IN <<<<4 * r, 0>>>> \o Factor(Deflate(p, r, 0))
         ELSE IF Len(p) < 3 \/ Found2(p) = {} THEN NoFactor
         ELSE LET z == CHOOSE x \in Found2(p) : TRUE
                  q == Divide2(p, -2 * z[1], z[1] * z[1] + z[2] * z[2], <<>>)
              IN  <<<<4 * z[1], 4 * z[2]>>, <<4 * z[1], -4 * z[2]>>>> \o Factor(SubSeq(q, 1, Len(q) - 2))
(* how many times the most frequent one is there *)
Twice(q) == \E i, j \in 1..Len(q) : i # j /\ q[i] = q[j]
Thrice(q) == \E i, j, k \in 1..Len(q) : i < j /\ j < k /\ q[i] = q[j] /\ q[j] = q[k]
RootsOf(t, e) ==
    IF Len(e) > 7 \/ e[1] = 0 \/ \E i \in 1..Len(e) : HasU1(t, e[i]) \/ Abs(e[i]) > 20000 THEN <<"any">>
    ELSE LET q == Factor(e) IN
         IF \E i \in 1..Len(q) : q[i] = <<U, U>> THEN <<"any">>
         ELSE IF Thrice(q) \/ (Twice(q) /\ t = "f") THEN <<"any">>
         ELSE <<"set", IF t = "f" THEN 2 ELSE IF Twice(q) THEN 4 ELSE 8, q>>        \* to 10^-2 or better
Roots(s, x) ==
    IF ~IsRef(x) THEN [o |-> Throw(s), r |-> U]
    ELSE IF IsMap(s.h, x) \/ Size(s.h, x) = 0 THEN [o |-> Skip(s), r |-> U]
    ELSE IF AType(s.h, x[2]) \notin {"f", "d"} THEN [o |-> (IF Low(ShapeOf(s.h, x)) < 2 THEN Skip(s) ELSE Throw(s)), r |-> U]
    ELSE LET t == AType(s.h, x[2])
             d == ShapeOf(s.h, x)
             n == Low(d)
             e(i) == RowOf(s.h, x, i, n)
             m == Prod(Front1(d))
         IN  \* Excluded: a constant, and nothing in front
             IF n < 2 \/ \E i \in 1..m : e(i)[1] \in {0, U} \/ \E j \in 1..n : e(i)[j] = U THEN [o |-> Skip(s), r |-> U]
             ELSE LET q == Shaped(s, CxOf(t), Front1(d) \o <<n - 1>>, Unknown(CxOf(t), m * (n - 1)))
                      r == [i \in 1..m |-> RootsOf(t, e(i))]
                  IN  [o |-> Out(q.s, q.x, "ok"), r |-> r]

(***************************************************************************)
(* Operations: the result goes to variable z, its values are reported      *)
(***************************************************************************)
FOps == {"dft", "dftb", "dfto", "poly", "roots"}
Store1(s, q, z) ==      \* the outcome q.o, its value put in z, and the report
    IF q.o.ok = "skip" THEN Skip(s) ELSE IF q.o.ok # "ok" THEN q.o
    ELSE LET a == Into(q.o, z) IN IF a.ok # "ok" THEN a ELSE [a EXCEPT !.r = <<"q", q.r>>]
FApply(s, op) ==
    IF op[1] = "dfto"
    THEN LET q == DftInto(s, op[2], op[3], op[4], s.v[op[5]], s.v[op[6]]) IN
         IF q.o.ok # "ok" THEN q.o ELSE [q.o EXCEPT !.r = <<"q", q.r>>]
    ELSE LET y == Operand(s, IF op[1] = "dft" THEN op[5] ELSE IF op[1] = "dftb" THEN op[4] ELSE op[2])
             x == Get(y.s, y.r)
         IN  IF y.ok # "ok" THEN y
             ELSE CASE op[1] = "dft" -> Store1(s, Dft(y.s, op[2], op[3], op[4], x), op[6])
                    [] op[1] = "dftb" -> Store1(s, DftBack(y.s, op[2], op[3], x), op[5])
                    [] op[1] = "poly" -> Store1(s, [o |-> Poly(y.s, x), r |-> U], op[3])
                    [] op[1] = "roots" -> Store1(s, Roots(y.s, x), op[3])
=============================================================================
