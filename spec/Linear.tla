------------------------------- MODULE Linear --------------------------------
(***************************************************************************)
(* Reductions and linear algebra on dense arrays and views: sum, sum of    *)
(* magnitudes, index of the largest magnitude, dot product and products of *)
(* matrices, transpose, concatenation and swap.  A view of more than one   *)
(* dimension is taken row by row, the products and the transpose matrix by *)
(* matrix.                                                                 *)
(***************************************************************************)
EXTENDS Arith

Bad1(ok) == [ok |-> ok, t |-> "n", x |-> 0]
Good1(t, x) == [ok |-> "ok", t |-> t, x |-> x]
Elem(h, x, i) == IF IsRef(x) THEN Item(h, x[2], i)[2] ELSE x[2]     \* from 0
ElemType(h, x) == IF IsRef(x) THEN AType(h, x[2]) ELSE x[1]
DimsOf(h, x) == IF IsRef(x) THEN ShapeOf(h, x) ELSE <<1>>
Front1(d) == SubSeq(d, 1, Len(d) - 1)
Low(d) == d[Len(d)]
FloatTypes == {"f", "d", "y", "z"}
RealType(t) == IF t = "y" THEN "f" ELSE IF t = "z" THEN "d" ELSE t
(* a new array of type t: as such when it has no shape of its own *)
Shaped(s, t, d, e) ==
    LET a == NewCell(s, Arr(t, e))
        b == NewCell(a, Win(Len(a.h), 0, d))
    IN  [s |-> b, x |-> Last(b)]
Plain(s, t, x) == Boxed(s, <<t, x>>)
Put1(s, q, d) ==     \* the results q of each row of something of shape d
    IF \E i \in 1..Len(q) : q[i].ok = "throw" THEN Throw(s)
    ELSE IF \E i \in 1..Len(q) : q[i].ok # "ok" THEN Skip(s)
    ELSE LET r == IF Len(d) = 1 THEN Plain(s, q[1].t, q[1].x)
                  ELSE Shaped(s, q[1].t, Front1(d) \o <<1>>, [i \in 1..Len(q) |-> q[i].x])
         IN  Out(r.s, r.x, "ok")

(***************************************************************************)
(* One row, as a sequence of numbers of type t                             *)
(***************************************************************************)
Zero(t) == IF IsCx(t) THEN <<0, 0>> ELSE 0
RECURSIVE Sum1(_, _, _)
Sum1(t, e, a) ==
    IF e = <<>> THEN Good1(t, a)
    ELSE LET r == Op1(t, "add", a, Head(e)) IN IF r.ok # "ok" THEN Bad1(r.ok) ELSE Sum1(t, Tail(e), r.x)
Conj(t, x) == IF IsCx(t) THEN <<x[1], -x[2]>> ELSE x
RECURSIVE Dot1(_, _, _, _)
Dot1(t, p, q, a) ==
    IF p = <<>> THEN Good1(t, a)
    ELSE LET m == IF HasU1(t, p[1]) THEN No ELSE Op1(t, "mul", Conj(t, p[1]), q[1])
             r == IF m.ok = "ok" THEN Op1(t, "add", a, m.x) ELSE m
         IN  IF r.ok # "ok" THEN Bad1(r.ok) ELSE Dot1(t, Tail(p), Tail(q), r.x)
Mag1(t, x) == IF IsCx(t) THEN Abs(x[1]) + Abs(x[2]) ELSE Abs(x)
Mag2(t, x) == IF IsCx(t) THEN x[1] * x[1] + x[2] * x[2] ELSE x * x
Arg1(t, e, M(_, _)) ==       \* the first that is as large as any
    CHOOSE i \in 1..Len(e) : /\ \A j \in 1..Len(e) : M(t, e[j]) <= M(t, e[i])
                             /\ \A j \in 1..i - 1 : M(t, e[j]) < M(t, e[i])
Bounded(t, x) == IF IsCx(t) THEN Abs(x[1]) <= 1000 /\ Abs(x[2]) <= 1000 ELSE Abs(x) <= 1000
Row1(f, t, e) ==
    IF t \notin FloatTypes THEN Bad1("throw")
    ELSE IF \E i \in 1..Len(e) : HasU1(t, e[i]) THEN Bad1("skip")
    ELSE CASE f = "sum" -> Sum1(t, e, Zero(t))
           [] f = "asum" -> IF IsCx(t) THEN Bad1("throw") ELSE Sum1(t, [i \in 1..Len(e) |-> Abs(e[i])], 0)
           \* Excluded: where the measures of magnitude of a complex number differ
           [] f = "iamax" -> IF \E i \in 1..Len(e) : ~Bounded(t, e[i]) THEN Bad1("skip")
                             ELSE IF Arg1(t, e, Mag1) # Arg1(t, e, Mag2) THEN Bad1("skip")
                             ELSE Good1("l", Arg1(t, e, Mag1) - 1)
(* the i-th (from 1) row of n elements of x *)
RowOf(h, x, i, n) == [j \in 1..n |-> Elem(h, x, (i - 1) * n + j - 1)]

Reduce(s, f, x) ==
    LET d == DimsOf(s.h, x)
        t == ElemType(s.h, x)
    IN  IF IsNil(x) THEN (IF f = "iamax" THEN Skip(s) ELSE Throw(s))      \* Excluded: the largest of nothing
        ELSE IF ~IsRef(x)
        THEN IF f = "asum" /\ IsCx(t)      \* the magnitude of one complex number
             THEN IF ~Bounded(t, x[2]) THEN Skip(s)
                  ELSE LET m == Mag2(t, x[2]) IN
                       IF \E r \in 0..1500 : r * r = m THEN Out(s, <<RealType(t), CHOOSE r \in 0..1500 : r * r = m>>, "ok") ELSE Skip(s)
             ELSE Put1(s, <<Row1(f, t, <<x[2]>>)>>, <<1>>)
        ELSE IF Size(s.h, x) = 0 THEN Skip(s)
        ELSE IF SingleZ(s.h, x) /\ f = "asum" THEN Skip(s)
        ELSE IF t \notin FloatTypes THEN Throw(s)
        ELSE Put1(s, [i \in 1..Prod(Front1(d)) |-> Row1(f, t, RowOf(s.h, x, i, Low(d)))], d)

(***************************************************************************)
(* Products                                                                *)
(***************************************************************************)
Column(h, y, j, k, n) == [i \in 1..k |-> Elem(h, y, (i - 1) * n + j - 1)]
DotOp(s, x, y) ==
    LET d == DimsOf(s.h, x)
        e == DimsOf(s.h, y)
        t == ElemType(s.h, x)
        rows == Prod(Front1(d))
    IN  IF IsNil(x) \/ IsNil(y) THEN Throw(s)
        ELSE IF IsMap(s.h, x) \/ IsMap(s.h, y) THEN Skip(s)
        ELSE IF Len(e) > 2 \/ (Len(e) = 2 /\ Len(d) < 2) THEN Throw(s)
        ELSE IF ~IsRef(x) \/ SingleZ(s.h, x)       \* one number
        THEN IF SingleZ(s.h, x) /\ Len(e) = 2 THEN Skip(s)
             ELSE LET c == ToElem(s, t, y) IN
                  IF t \notin FloatTypes THEN Throw(s)
                  ELSE IF c.ok # "ok" THEN Out(s, Nil, c.ok)
                  ELSE Put1(s, <<Dot1(t, <<Elem(s.h, x, 0)>>, <<c.x>>, Zero(t))>>, d)
        ELSE IF Size(s.h, x) = 0 \/ Size(s.h, y) = 0 THEN Skip(s)
        ELSE IF Len(e) = 1
        THEN IF Low(d) # e[1] THEN Throw(s)
             ELSE IF e[1] = 1
             THEN IF t = "v" THEN Skip(s)
                  ELSE IF t \notin FloatTypes THEN Throw(s)
                  ELSE LET c == ToElem(s, t, Only(s.h, y)) IN
                       IF c.ok # "ok" THEN Out(s, Nil, c.ok)
                       ELSE Put1(s, [i \in 1..rows |-> Dot1(t, RowOf(s.h, x, i, 1), <<c.x>>, Zero(t))], d)
             ELSE IF ElemType(s.h, y) # t \/ t \notin FloatTypes THEN Throw(s)
             ELSE LET q == RowOf(s.h, y, 1, e[1]) IN
                  Put1(s, [i \in 1..rows |-> Dot1(t, RowOf(s.h, x, i, e[1]), q, Zero(t))], d)
        ELSE IF ElemType(s.h, y) # t \/ t \notin {"f", "d"} \/ Low(d) # e[1] THEN Throw(s)
        ELSE LET r == [i \in 1..rows * e[2] |->
                          Dot1(t, RowOf(s.h, x, ((i - 1) \div e[2]) + 1, e[1]), Column(s.h, y, ((i - 1) % e[2]) + 1, e[1], e[2]), Zero(t))]
             IN  IF \E i \in 1..Len(r) : r[i].ok # "ok" THEN Skip(s)
                 ELSE LET z == Shaped(s, t, Front1(d) \o <<e[2]>>, [i \in 1..Len(r) |-> r[i].x]) IN Out(z.s, z.x, "ok")

(***************************************************************************)
(* Transpose                                                               *)
(***************************************************************************)
Flip(d) == SubSeq(d, 1, Len(d) - 2) \o <<d[Len(d)], d[Len(d) - 1]>>
(* element i (from 0) of the transpose of something of shape d *)
From(d, i) ==
    LET r == d[Len(d) - 1]
        c == d[Len(d)]
        m == r * c
        j == i % m
    IN  (i - j) + (j % r) * c + (j \div r)
Transposable(s, x) ==
    IF IsNil(x) \/ ~IsRef(x) THEN "throw"
    ELSE IF Len(ShapeOf(s.h, x)) < 2 THEN "throw"
    ELSE IF Size(s.h, x) = 0 THEN "skip"
    ELSE IF AType(s.h, x[2]) \notin {"f", "d"} THEN "throw"
    ELSE "ok"
Flipped(s, x) ==
    LET ok == Transposable(s, x)
        d == ShapeOf(s.h, x)
        r == Shaped(s, AType(s.h, x[2]), Flip(d), [i \in 1..Size(s.h, x) |-> Elem(s.h, x, From(d, i - 1))])
    IN  IF ok # "ok" THEN Out(s, Nil, ok) ELSE Out(r.s, r.x, "ok")
(* in place: the view itself takes the other shape *)
FlipIn(s, x) ==
    LET ok == Transposable(s, x)
        c == s.h[x[2]]
        n == Size(s.h, x)
    IN  IF ok # "ok" THEN Out(s, Nil, ok)
        ELSE Done([s EXCEPT !.h[c.b].e = [i \in 1..Len(@) |-> IF i > c.o /\ i <= c.o + n THEN @[c.o + From(c.d, i - 1 - c.o) + 1] ELSE @[i]],
                            !.h[x[2]].d = Flip(c.d)])

(***************************************************************************)
(* Concatenation of the rows of the elements of x; an element of one       *)
(* dimension less is a column                                              *)
(***************************************************************************)
Cat(s, x) ==
    LET n == Size(s.h, x)
        it(i) == Item(s.h, x[2], i - 1)
        d(i) == DimsOf(s.h, it(i))
        w(i) == IF Len(d(i)) = Len(d(1)) THEN Low(d(i)) ELSE 1
        up == Front1(d(1))
        t == ElemType(s.h, it(1))
        RECURSIVE Wide(_), RowFrom(_, _)
        Wide(i) == IF i > n THEN 0 ELSE w(i) + Wide(i + 1)
        RowFrom(i, r) == IF i > n THEN <<>> ELSE RowOf(s.h, it(i), r, w(i)) \o RowFrom(i + 1, r)
        RECURSIVE Rows(_)
        Rows(r) == IF r > Prod(up) THEN <<>> ELSE RowFrom(1, r) \o Rows(r + 1)
    IN  IF IsNil(x) \/ ~IsRef(x) THEN Throw(s)
        ELSE IF n = 0 \/ IsView(s.h, x) \/ AType(s.h, x[2]) = "z" THEN Skip(s)
        ELSE IF AType(s.h, x[2]) \notin {"v", "p"} THEN Throw(s)
        ELSE IF \E i \in 1..n : IsNil(it(i)) \/ IsMap(s.h, it(i)) THEN Throw(s)
        ELSE IF Size(s.h, it(1)) = 0 \/ Prod(up) = 0 THEN Skip(s)
        ELSE IF \E i \in 1..n : ElemType(s.h, it(i)) # t \/ (Len(d(i)) # Len(d(1)) /\ Len(d(i)) # Len(d(1)) - 1)
                                \/ SubSeq(d(i), 1, Len(up)) # up THEN Throw(s)
        ELSE IF t \notin FloatTypes THEN Throw(s)
        ELSE IF Len(d(1)) = 1 /\ \E i \in 1..n : ~IsRef(it(i)) THEN Throw(s)
        ELSE LET r == Shaped(s, t, up \o <<Wide(1)>>, Rows(1)) IN Out(r.s, r.x, "ok")

(***************************************************************************)
(* Swap of the elements of two arrays                                      *)
(***************************************************************************)
SwapOp(s, x, y) ==
    IF IsNil(x) \/ IsNil(y) \/ ~IsRef(x) \/ ~IsRef(y) THEN Skip(s)
    ELSE IF IsMap(s.h, x) \/ IsMap(s.h, y) THEN Skip(s)
    ELSE IF ShapeOf(s.h, x) # ShapeOf(s.h, y) \/ AType(s.h, x[2]) # AType(s.h, y[2]) THEN Throw(s)
    ELSE IF Size(s.h, x) = 0 THEN Skip(s)
    ELSE IF AType(s.h, x[2]) \notin FloatTypes THEN Throw(s)
    ELSE IF Overlap(s.h, x, y) /\ OffOf(s.h, x[2]) # OffOf(s.h, y[2]) THEN Skip(s)
    ELSE LET bx == BaseOf(s.h, x[2])
             by == BaseOf(s.h, y[2])
             ox == OffOf(s.h, x[2])
             oy == OffOf(s.h, y[2])
             n == Size(s.h, x)
             inx(b, i) == b = bx /\ i > ox /\ i <= ox + n
             iny(b, i) == b = by /\ i > oy /\ i <= oy + n
             new(b) == [i \in 1..Len(s.h[b].e) |->
                           IF inx(b, i) THEN s.h[by].e[oy + i - ox] ELSE IF iny(b, i) THEN s.h[bx].e[ox + i - oy] ELSE s.h[b].e[i]]
         IN  Done([s EXCEPT !.h[bx].e = new(bx), !.h[by].e = new(by)])

(* a result into an array prepared for it, which has storage of its own *)
PutInto(s, a, x, z) ==
    IF a.ok # "ok" THEN Skip(s)
    ELSE IF ~IsRef(a.r)
    THEN IF IsRef(s.v[z]) \/ TypeOf(s.v[z]) # TypeOf(a.r) THEN Skip(s) ELSE Done([s EXCEPT !.v[z] = a.r])
    ELSE LET w == s.v[z]
             n == Size(s.h, w)
             b == BaseOf(s.h, w[2])
             o == OffOf(s.h, w[2])
         IN  IF ~IsRef(w) THEN Skip(s)
             ELSE IF AType(s.h, w[2]) # AType(a.s.h, a.r[2]) \/ ShapeOf(s.h, w) # ShapeOf(a.s.h, a.r) \/ SingleZ(s.h, w) THEN Skip(s)
             ELSE IF \E y \in x : IsRef(y) /\ BaseOf(s.h, y[2]) = b THEN Skip(s)
             ELSE Done([s EXCEPT !.h[b].e = [i \in 1..Len(@) |-> IF i > o /\ i <= o + n THEN Elem(a.s.h, a.r, i - 1 - o) ELSE @[i]]])

LApply(s, op) ==
    LET o == op[1] IN
    CASE o = "red" ->
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET r == IF op[2] = "transpose" THEN Flipped(y.s, Get(y.s, y.r))
                         ELSE IF op[2] = "cat" THEN Cat(y.s, Get(y.s, y.r))
                         ELSE Reduce(y.s, op[2], Get(y.s, y.r))
                IN  IF r.ok # "ok" THEN (IF r.ok = "skip" THEN Skip(s) ELSE Out(y.s, Nil, r.ok)) ELSE Into(r, op[4])
      [] o = "dot" ->
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET r == DotOp(y.s, y.s.v[op[2]], Get(y.s, y.r)) IN
                IF r.ok # "ok" THEN (IF r.ok = "skip" THEN Skip(s) ELSE Out(y.s, Nil, r.ok)) ELSE Into(r, op[4])
      [] o = "redi" ->
           LET x == s.v[op[3]] IN
           PutInto(s, IF op[2] = "transpose" THEN Flipped(s, x) ELSE IF op[2] = "cat" THEN Cat(s, x) ELSE Reduce(s, op[2], x),
                   {x} \cup (IF op[2] = "cat" /\ IsRef(x) THEN {Item(s.h, x[2], i) : i \in 0..Size(s.h, x) - 1} ELSE {}), op[4])
      [] o = "doti" -> PutInto(s, DotOp(s, s.v[op[2]], s.v[op[3]]), {s.v[op[2]], s.v[op[3]]}, op[4])
      [] o = "flip" -> FlipIn(s, s.v[op[2]])
      [] o = "swap" -> SwapOp(s, s.v[op[2]], s.v[op[3]])
LOps == {"red", "dot", "redi", "doti", "flip", "swap"}
=============================================================================
