--------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Conversions between types and from text, and the functions of one       *)
(* number, on single values and element by element                         *)
(***************************************************************************)
EXTENDS Arith, Tables

(***************************************************************************)
(* A value as a number of type t                                           *)
(***************************************************************************)
CastTo(s, t, x) ==
    LET c == ToElem(s, t, x) IN
    IF c.ok # "ok" THEN c ELSE IF HasU1(t, c.x) THEN No ELSE c

(* every number or string in a dynamically typed array or a map, however   *)
(* deep.  Excluded: dense arrays, which keep their type                    *)
RECURSIVE CastTree(_, _, _), CastSeq(_, _, _, _)
CastTree(s, t, x) ==
    IF IsNil(x) THEN [s |-> s, x |-> Nil, ok |-> "ok"]
    ELSE IF t = "z" /\ IsRef(x) /\ AType(s.h, x[2]) = "z" THEN [s |-> s, x |-> x, ok |-> "ok"]     \* it is one already
    ELSE IF ~IsRef(x) \/ IsStr(s.h, x) \/ SingleZ(s.h, x)
    THEN LET c == CastTo(s, t, x)
             b == Boxed(s, <<t, c.x>>)
         IN  IF c.ok # "ok" THEN [s |-> s, x |-> Nil, ok |-> c.ok] ELSE [s |-> b.s, x |-> b.x, ok |-> "ok"]
    ELSE IF IsView(s.h, x) \/ AType(s.h, x[2]) \notin {"v", "p"} THEN [s |-> s, x |-> Nil, ok |-> "skip"]
    ELSE LET r == CastSeq(s, t, Items(s.h, x), <<>>)
             c == s.h[x[2]]
             n == NewCell(r.s, IF c.k = "m" THEN Map([i \in 1..Len(c.e) |-> <<c.e[i][1], r.x[i]>>]) ELSE Arr("v", r.x))
         IN  IF r.ok # "ok" THEN r ELSE [s |-> n, x |-> Last(n), ok |-> "ok"]
CastSeq(s, t, xs, acc) ==
    IF xs = <<>> THEN [s |-> s, x |-> acc, ok |-> "ok"]
    ELSE LET r == CastTree(s, t, Head(xs)) IN
         IF r.ok # "ok" THEN r ELSE CastSeq(r.s, t, Tail(xs), Append(acc, r.x))

(***************************************************************************)
(* Functions of one number: exact values only                              *)
(***************************************************************************)
Good(t, x) == [ok |-> "ok", t |-> t, x |-> x]
Bad(ok) == [ok |-> ok, t |-> "n", x |-> 0]
RealOf(t) == IF t = "y" THEN "f" ELSE IF t = "z" THEN "d" ELSE t
RECURSIVE RootFrom(_, _)
RootFrom(n, r) == IF r * r >= n THEN r ELSE RootFrom(n, r + 1)
Root(n) == RootFrom(n, 0)            \* of a perfect square
(* q quarters are the square of r quarters when 4 q = r r *)
SqrtQ(q) == IF q < 0 \/ q > 10000 THEN -1 ELSE LET r == Root(4 * q) IN IF r * r = 4 * q THEN r ELSE -1
Table(f, q) ==      \* the exact values of the elementary functions
    CASE f \in {"sin", "tan", "atan"} -> IF q = 0 THEN 0 ELSE U
      [] f \in {"cos", "exp"} -> IF q = 0 THEN 4 ELSE U
      [] f = "log" -> IF q = 4 THEN 0 ELSE U
      [] f = "sqrt" -> LET r == SqrtQ(q) IN IF r < 0 THEN U ELSE r
Fun1(f, t, x) ==
    IF IsInt(t) THEN Bad("throw")
    ELSE IF HasU1(t, x) THEN Bad("skip")
    ELSE IF IsCx(t)
    THEN CASE f = "floor" -> Bad("throw")
           [] f = "real" -> Good(RealOf(t), x[1])
           [] f = "imag" -> Good(RealOf(t), x[2])
           [] f = "norm" -> LET r == Both("add", Real1("mul", x[1], x[1]), Real1("mul", x[2], x[2])) IN IF r.ok = "ok" THEN Good(RealOf(t), r.x) ELSE Bad("skip")
           [] f = "abs" -> IF Abs(x[1]) > 1000 \/ Abs(x[2]) > 1000 THEN Bad("skip")
                           ELSE LET n == x[1] * x[1] + x[2] * x[2]
                                    r == Root(n)
                                IN  IF r * r = n THEN Good(RealOf(t), r) ELSE Bad("skip")
           [] f = "arg" -> IF x[2] = 0 /\ x[1] > 0 THEN Good(RealOf(t), 0) ELSE Bad("skip")
           \* on the real axis; square roots of negative numbers are on the other
           [] OTHER -> IF x[2] # 0 THEN Bad("skip")
                       ELSE IF f = "sqrt" /\ x[1] < 0 /\ SqrtQ(-x[1]) >= 0 THEN Good(t, <<0, SqrtQ(-x[1])>>)
                       ELSE IF Table(f, x[1]) = U THEN Bad("skip") ELSE Good(t, <<Table(f, x[1]), 0>>)
    ELSE CASE f = "floor" -> Good(t, (x \div 4) * 4)
           [] f = "real" -> Good(t, x)
           [] f = "imag" -> Good(t, 0)
           [] f = "norm" -> LET r == Real1("mul", x, x) IN IF r.ok = "ok" THEN Good(t, r.x) ELSE Bad("skip")
           [] f = "abs" -> Good(t, Abs(x))
           [] f = "arg" -> IF x > 0 THEN Good(t, 0) ELSE Bad("skip")
           [] OTHER -> IF Table(f, x) = U THEN Bad("skip") ELSE Good(t, Table(f, x))
Reals == {"real", "imag", "norm", "abs", "arg"}       \* their results are real
Funs == Reals \cup {"floor", "sin", "cos", "tan", "atan", "exp", "log", "sqrt"}

(***************************************************************************)
(* To three decimal places: thousandths of the function of each element    *)
(***************************************************************************)
Where(q, x) == LET k == {i \in 1..Len(q) : q[i] = x} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE
NoMils == <<U, U>>
Mils(f, t, x) ==
    IF IsInt(t) THEN NoMils
    ELSE IF IsCx(t) THEN LET k == Where(TabZ, x) IN IF f \notin DOMAIN TabC \/ k = 0 THEN NoMils ELSE TabC[f][k]
    ELSE LET k == Where(TabX, x) IN IF f \notin DOMAIN TabR \/ k = 0 THEN NoMils ELSE IF TabR[f][k] = U THEN NoMils ELSE <<TabR[f][k], 0>>
(* a number to a power, converted to its type *)
PowMils(s, t, x, y) ==
    LET c == ToElem(s, t, y) IN
    IF IsInt(t) \/ c.ok # "ok" THEN NoMils
    ELSE IF IsCx(t)
    THEN LET i == Where(CPowB, x)
             j == Where(CPowE, c.x)
         IN  IF i = 0 \/ j = 0 THEN NoMils ELSE CPowR[i][j]
    ELSE LET i == Where(PowB, x)
             j == Where(PowE, c.x)
         IN  IF i = 0 \/ j = 0 THEN NoMils ELSE IF PowR[i][j] = U THEN NoMils ELSE <<PowR[i][j], 0>>
(* the results for each element of x, or <<>> if they are not all known *)
AllMils(s, x, M(_, _)) ==
    IF IsNil(x) THEN <<>>
    ELSE IF ~IsRef(x) THEN (IF M(x[1], x[2]) = NoMils THEN <<>> ELSE <<M(x[1], x[2])>>)
    ELSE IF ~Dense(s.h, x) THEN <<>>
    ELSE LET t == AType(s.h, x[2])
             q == [i \in 1..Size(s.h, x) |-> M(t, Item(s.h, x[2], i - 1)[2])]
         IN  IF \E i \in 1..Len(q) : q[i] = NoMils THEN <<>> ELSE q

First(q, bad) ==       \* the first of the results that is not good
    LET k == {i \in 1..Len(q) : q[i].ok # "ok"} IN
    IF k = {} THEN "ok" ELSE IF \E i \in k : q[i].ok = "skip" THEN "skip" ELSE bad
RECURSIVE FunTree(_, _, _), FunSeq(_, _, _, _)
Give3(s, x, ok) == [s |-> s, x |-> x, ok |-> ok]
FunTree(s, f, x) ==
    IF IsNil(x) THEN Give3(s, Nil, "throw")
    \* Excluded: one complex double into a view of one
    ELSE IF SingleZ(s.h, x) /\ IsView(s.h, x) /\ f \notin Reals THEN Give3(s, Nil, "skip")
    ELSE IF ~IsRef(x) \/ SingleZ(s.h, x)
    THEN LET r == Fun1(f, IF IsRef(x) THEN "z" ELSE x[1], IF IsRef(x) THEN Item(s.h, x[2], 0)[2] ELSE x[2])
             b == Boxed(s, <<r.t, r.x>>)
         IN  IF r.ok # "ok" THEN Give3(s, Nil, r.ok) ELSE Give3(b.s, b.x, "ok")
    ELSE IF Dense(s.h, x)
    THEN LET t == AType(s.h, x[2])
             n == Size(s.h, x)
             q == [i \in 1..n |-> Fun1(f, t, Item(s.h, x[2], i - 1)[2])]
             ok == First(q, "throw")
         IN  IF ok # "ok" THEN Give3(s, Nil, ok)
             ELSE IF f \in Reals
             THEN IF n = 0 THEN Give3(s, Nil, "skip")
                  ELSE LET c == NewCell(s, Arr(RealOf(t), [i \in 1..n |-> q[i].x]))
                           w == NewCell(c, Win(Len(c.h), 0, ShapeOf(s.h, x)))
                       IN  Give3(w, Last(w), "ok")
             ELSE LET y == Tree(s, x)
                      b == BaseOf(y.s.h, y.x[2])
                      o == OffOf(y.s.h, y.x[2])
                  IN  Give3([y.s EXCEPT !.h[b].e = [i \in 1..Len(@) |-> IF i > o /\ i <= o + n THEN q[i - o].x ELSE @[i]]], y.x, "ok")
    ELSE IF f \in Reals THEN Give3(s, Nil, IF Size(s.h, x) = 0 THEN "skip" ELSE "throw")
    ELSE IF IsView(s.h, x) THEN Give3(s, Nil, "skip")
    ELSE LET r == FunSeq(s, f, Items(s.h, x), <<>>)
             c == s.h[x[2]]
             n == NewCell(r.s, IF c.k = "m" THEN Map([i \in 1..Len(c.e) |-> <<c.e[i][1], r.x[i]>>]) ELSE Arr("v", r.x))
         IN  IF r.ok # "ok" THEN r ELSE Give3(n, Last(n), "ok")
FunSeq(s, f, xs, acc) ==
    IF xs = <<>> THEN Give3(s, acc, "ok")
    ELSE LET r == FunTree(s, f, Head(xs)) IN
         IF r.ok # "ok" THEN r ELSE FunSeq(r.s, f, Tail(xs), Append(acc, r.x))
(* into the elements of z, converted to its type *)
FunInto(s, f, x, z) ==
    LET b == BaseOf(s.h, z[2])
        o == OffOf(s.h, z[2])
        n == Size(s.h, x)
        q == [i \in 1..n |-> Fun1(f, AType(s.h, x[2]), Item(s.h, x[2], i - 1)[2])]
    IN  [ok |-> First(q, "skip"),
         s |-> [s EXCEPT !.h[b].e = [i \in 1..Len(@) |-> IF i > o /\ i <= o + n THEN Conv(q[i - o].t, s.h[b].t, q[i - o].x) ELSE @[i]]]]

(***************************************************************************)
(* Integers of any length, as a sign and digits                            *)
(***************************************************************************)
RECURSIVE LessDigits(_, _)
LessDigits(a, b) == IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LessDigits(Tail(a), Tail(b))
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessDigits(a, b)
D(q) == [i \in 1..Len(q) |-> 48 + q[i]]
MaxOf(t, neg) ==
    CASE t = "i" -> IF neg THEN D(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>) ELSE D(<<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>)
      [] t \in {"l", "J"} -> D(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, IF neg THEN 8 ELSE 7>>)
      [] t \in {"f", "y"} -> D(<<1, 6, 7, 7, 7, 2, 1, 6>>)
      [] t \in {"d", "z"} -> D(<<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 2>>)
(* a number spelt: its sign and digits *)
Spelt(codes) ==
    LET s == SkipBlank(codes)
        neg == s # <<>> /\ Head(s) = 45
        u == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
        n == SpanDigits(u)
        z == SpanZeros(u)
    IN  [ok |-> n > 0, neg |-> neg /\ n > z, d |-> SubSeq(u, z + 1, n)]
(* through several types in turn: exact, or an error when spelt too large. *)
(* Excluded: numbers too large for the type of a number                    *)
RECURSIVE Through(_, _, _)
Through(b, ts, first) ==
    IF ts = <<>> THEN [ok |-> "ok", b |-> b]
    ELSE IF Less(MaxOf(Head(ts), b.neg), b.d) THEN [ok |-> IF first /\ Head(ts) \in {"i", "l"} THEN "throw" ELSE "skip", b |-> b]
    ELSE Through(b, Tail(ts), FALSE)
BigText(b) == (IF b.neg THEN <<45>> ELSE <<>>) \o (IF b.d = <<>> THEN <<48>> ELSE b.d)

CvApply(s, op) ==
    LET o == op[1] IN
    CASE o = "fnr" ->
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET q == AllMils(y.s, Get(y.s, y.r), LAMBDA t, x : Mils(op[2], t, x)) IN
                IF q = <<>> THEN Skip(s) ELSE Out(s, <<"q", q>>, "ok")
      [] o = "powr" ->           \* y is one number
           LET y == Operand(s, op[2]) IN
           IF y.ok # "ok" THEN y
           ELSE LET q == AllMils(y.s, Get(y.s, y.r), LAMBDA t, x : PowMils(y.s, t, x, op[3])) IN
                IF q = <<>> THEN Skip(s) ELSE Out(s, <<"q", q>>, "ok")
      [] o = "cast" ->           \* the member function
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET x == Get(y.s, y.r)
                    c == CastTo(y.s, op[2], x)
                    b == Boxed(y.s, <<op[2], c.x>>)
                IN  IF c.ok # "ok" THEN Out(y.s, Nil, c.ok)
                    \* Excluded: is one complex number in an array of it a number or an array?
                    ELSE IF op[2] = "z" /\ IsRef(x) /\ AType(y.s.h, x[2]) = "z" THEN Skip(s)
                    ELSE Assign(b.s, <<"x", op[4]>>, b.x)
      [] o = "castf" ->          \* the functor
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET x == Get(y.s, y.r)
                    r == CastTree(y.s, op[2], x)
                IN  IF op[2] = "z" /\ (x[1] = "z" \/ (IsRef(x) /\ AType(y.s.h, x[2]) = "z")) THEN Skip(s)
                    ELSE IF r.ok # "ok" THEN Out(y.s, Nil, r.ok) ELSE Assign(r.s, <<"x", op[4]>>, r.x)
      [] o = "casti" ->          \* into another variable
           LET x == s.v[op[3]]
               c == CastTo(s, op[2], x)
               b == Boxed(s, <<op[2], c.x>>)
           IN  IF IsNil(x) \/ (IsRef(x) /\ ~IsStr(s.h, x)) \/ op[2] = "z" THEN Skip(s)
               ELSE IF c.ok # "ok" THEN Out(s, Nil, c.ok) ELSE Assign(b.s, <<"x", op[4]>>, b.x)
      [] o = "fun" ->
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET r == FunTree(y.s, op[2], Get(y.s, y.r)) IN
                IF r.ok # "ok" THEN Out(y.s, Nil, r.ok) ELSE Assign(r.s, <<"x", op[4]>>, r.x)
      [] o = "funi" ->
           LET x == s.v[op[3]]
               z == s.v[op[4]]
           IN  IF IsNil(x) THEN Throw(s)
               ELSE IF ~IsRef(x) \/ SingleZ(s.h, x)
               THEN LET r == FunTree(s, op[2], x) IN
                    IF SingleZ(s.h, x) THEN Skip(s)
                    ELSE IF r.ok # "ok" THEN Out(s, Nil, r.ok) ELSE Assign(r.s, <<"x", op[4]>>, r.x)
               ELSE IF ~Dense(s.h, x) \/ ~IsRef(z) THEN Skip(s)
               ELSE IF ~Dense(s.h, z) \/ ShapeOf(s.h, x) # ShapeOf(s.h, z) \/ SingleZ(s.h, z) THEN Skip(s)
               ELSE IF BaseOf(s.h, x[2]) = BaseOf(s.h, z[2]) /\ x # z THEN Skip(s)
               ELSE LET r == FunInto(s, op[2], x, z) IN IF r.ok = "ok" THEN Done(r.s) ELSE Skip(s)
      [] o = "big" ->
           LET b == Spelt(op[2])
               r == Through(b, op[3], TRUE)
           IN  IF ~b.ok THEN Skip(s)
               ELSE IF r.ok # "ok" THEN Out(s, Nil, r.ok)
               ELSE Out(s, <<"q", BigText(r.b)>>, "ok")
CvOps == {"cast", "castf", "casti", "fun", "funi", "big", "fnr", "powr"}
CvStep(st, op) ==
    IF op[1] \in CvOps
    THEN LET a == CvApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
         ELSE IF ~Acyclic(a.s.h) THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE Step(st, op)
=============================================================================
