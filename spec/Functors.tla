------------------------------- MODULE Functors ------------------------------
(***************************************************************************)
(* Functors that a program defines: what it says of one row, matrix or     *)
(* number is done to each of them in the argument, however many dimensions *)
(* that has.  The functors here, and the dimension of what they work on:   *)
(*   unary: rev (1) reverses; scan (1) adds up; last (1) gives only the    *)
(*     last; rows (2) reverses the order of rows; turn (2) transposes;     *)
(*     twice (1) multiplies by two, on memory; none (1) does not say how   *)
(*   binary: mix (1) adds the other reversed, repeated; plus (0); none (1) *)
(*   arithmetic: rsub subtracts the left from the right                    *)
(*   n-ary: total (0, 1, 2) adds up; none (1); count (1) takes nothing     *)
(***************************************************************************)
EXTENDS Arith

FuDim(f) == CASE f \in {"rows", "turn", "total2"} -> 2 [] f \in {"plus", "total0"} -> 0 [] OTHER -> 1
FuDense(h, x) == IF ~IsRef(x) THEN FALSE ELSE AType(h, x[2]) \notin {"v", "p"}
FuProd(d) == Prod(d)
FuEnd(d, k) == SubSeq(d, Len(d) - k + 1, Len(d))      \* the last k dimensions
FuFront(d, k) == SubSeq(d, 1, Len(d) - k)
(* x as a sequence of blocks of m numbers *)
FuBlock(h, x, i, m) == [j \in 1..m |-> Item(h, x[2], (i - 1) * m + j - 1)[2]]
FuAdd(t, a, b) == IF a.ok # "ok" THEN a ELSE Op1(t, "add", a.x, b)
RECURSIVE FuScan(_, _, _, _)
FuScan(t, q, acc, out) ==
    IF q = <<>> THEN out
    ELSE LET a == IF out = <<>> THEN Ok(Head(q)) ELSE FuAdd(t, acc, Head(q)) IN FuScan(t, Tail(q), a, Append(out, a))
(* what f makes of the block q of dimensions d, as results *)
FuOf(t, f, q, d) ==
    CASE f = "rev" -> [i \in 1..Len(q) |-> Ok(q[Len(q) + 1 - i])]
      [] f = "scan" -> IF \E i \in 1..Len(q) : HasU1(t, q[i]) THEN [i \in 1..Len(q) |-> No] ELSE FuScan(t, q, No, <<>>)
      [] f = "last" -> <<Ok(q[Len(q)])>>
      [] f = "rows" -> [i \in 1..Len(q) |-> Ok(q[(d[1] - 1 - ((i - 1) \div d[2])) * d[2] + ((i - 1) % d[2]) + 1])]
      [] f = "turn" -> [i \in 1..Len(q) |-> Ok(q[((i - 1) % d[1]) * d[2] + ((i - 1) \div d[1]) + 1])]
      [] f = "twice" -> [i \in 1..Len(q) |-> IF HasU1(t, q[i]) THEN No ELSE Op1(t, "add", q[i], q[i])]
FuOut(f, d) == CASE f = "last" -> FuFront(d, 1) \o <<1>> [] f = "turn" -> FuFront(d, 2) \o <<d[Len(d)], d[Len(d) - 1]>> [] OTHER -> d
RECURSIVE FuFlat(_)
FuFlat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o FuFlat(Tail(q))

(* A place for the results: of the same kind as x, or a new matrix *)
FuView(s, t, d, e) == LET a == NewCell(s, Arr(t, e))
                          b == NewCell(a, Win(Len(a.h), 0, d))
                      IN  [s |-> b, x |-> Last(b)]
(* the elements of z become q *)
FuWrite(s, z, q) ==
    LET b == BaseOf(s.h, z[2])
        o == OffOf(s.h, z[2])
    IN  [s EXCEPT !.h[b].e = [i \in 1..Len(@) |-> IF i > o /\ i <= o + Len(q) THEN q[i - o] ELSE @[i]]]
FuNew(s, f, x, q) ==
    LET e == [i \in 1..Len(q) |-> q[i].x]
        t == AType(s.h, x[2])
        d == ShapeOf(s.h, x)
    IN  IF FuOut(f, d) # d \/ f \in {"last", "turn"}
        THEN LET v == FuView(s, t, FuOut(f, d), e) IN Out(v.s, v.x, "ok")
        ELSE LET c == Tree(s, x) IN Out(FuWrite(c.s, c.x, e), c.x, "ok")
FuUnary(s, f, x) ==      \* the results, one after the other
    LET d == ShapeOf(s.h, x)
        k == FuDim(f)
        e == FuEnd(d, k)
        m == FuProd(e)
        n == Size(s.h, x) \div m
    IN  FuFlat([i \in 1..n |-> FuOf(AType(s.h, x[2]), f, FuBlock(s.h, x, i, m), e)])
(* "ok" when f can be done to x *)
FuCan1(s, f, x) ==
    IF IsNil(x) THEN "skip"
    ELSE IF ~IsRef(x) THEN (IF f \in {"rev", "scan", "none"} THEN "throw" ELSE "skip")
    ELSE IF ~FuDense(s.h, x) THEN "skip"
    ELSE IF Size(s.h, x) = 0 THEN "none"
    ELSE IF FuDim(f) > Len(ShapeOf(s.h, x)) THEN (IF f = "turn" THEN "skip" ELSE "throw")
    ELSE IF f = "none" THEN "throw"
    ELSE IF f = "twice" /\ AType(s.h, x[2]) # "d" THEN "throw"
    ELSE IF f = "last" /\ AType(s.h, x[2]) = "z" THEN "skip"
    ELSE "ok"

(***************************************************************************)
(* Two arguments, row by row                                               *)
(***************************************************************************)
FuCan2(s, f, x, y) ==
    IF ~IsRef(x) \/ ~IsRef(y) THEN "skip"
    ELSE IF ~FuDense(s.h, x) \/ ~FuDense(s.h, y) THEN "skip"
    ELSE IF AType(s.h, x[2]) # AType(s.h, y[2]) THEN "throw"
    ELSE LET d == ShapeOf(s.h, x)
             e == ShapeOf(s.h, y)
             k == FuDim(f)
         IN  IF Size(s.h, x) = 0 \/ Size(s.h, y) = 0 THEN "skip"
             \* Excluded: arguments whose rows do not correspond
             ELSE IF Len(d) # Len(e) THEN "skip"
             ELSE IF FuFront(d, k) # FuFront(e, k) THEN "skip"
             ELSE IF f = "none" THEN "throw"
             ELSE "ok"
FuBinary(s, f, x, y) ==
    LET k == FuDim(f)
        t == AType(s.h, x[2])
        m == FuProd(FuEnd(ShapeOf(s.h, x), k))
        w == FuProd(FuEnd(ShapeOf(s.h, y), k))
        n == Size(s.h, x) \div m
        at(i, j) == LET a == Item(s.h, x[2], (i - 1) * m + j - 1)[2]
                        b == IF f = "plus" THEN Item(s.h, y[2], i - 1)[2] ELSE Item(s.h, y[2], (i - 1) * w + (w - 1 - ((j - 1) % w)))[2]
                    IN  IF HasU1(t, a) \/ HasU1(t, b) THEN No ELSE Op1(t, "add", a, b)
    IN  FuFlat([i \in 1..n |-> [j \in 1..m |-> at(i, j)]])

(***************************************************************************)
(* Any number of arguments                                                 *)
(***************************************************************************)
FuItems(s, x) == [i \in 1..Size(s.h, x) |-> Item(s.h, x[2], i - 1)]
FuCanN(s, f, xs) ==
    IF xs = <<>> THEN "skip"
    ELSE IF \E i \in 1..Len(xs) : ~FuDense(s.h, xs[i]) THEN "skip"
    ELSE IF \E i \in 1..Len(xs) : Size(s.h, xs[i]) = 0 THEN "skip"
    ELSE IF \E i \in 1..Len(xs) : AType(s.h, xs[i][2]) # AType(s.h, xs[1][2]) THEN "throw"
    ELSE LET d == ShapeOf(s.h, xs[1])
             k == FuDim(f)
             fits(y) == LET e == ShapeOf(s.h, y) IN
                        \/ e = d
                        \/ k = 1 /\ Len(d) > 1 /\ e = FuFront(d, 1)
                        \/ k = 1 /\ Len(e) = Len(d) /\ FuFront(e, 1) = FuFront(d, 1) /\ e[Len(e)] = 1
         IN  IF Len(d) < k THEN "throw"
             \* Excluded: arguments whose rows do not correspond
             ELSE IF \E i \in 1..Len(xs) : ~fits(xs[i]) THEN "skip"
             ELSE IF f = "nonen" THEN "throw"
             ELSE "ok"
RECURSIVE FuSum(_, _, _)
FuSum(t, q, acc) == IF q = <<>> THEN acc ELSE FuSum(t, Tail(q), FuAdd(t, acc, Head(q)))
FuNary(s, xs) ==
    LET t == AType(s.h, xs[1][2])
        d == ShapeOf(s.h, xs[1])
        m == d[Len(d)]
        el(y, i) == IF Size(s.h, y) = Size(s.h, xs[1]) THEN Item(s.h, y[2], i - 1)[2] ELSE Item(s.h, y[2], (i - 1) \div m)[2]
        at(i) == LET q == [j \in 1..Len(xs) |-> el(xs[j], i)] IN
                 IF \E j \in 1..Len(q) : HasU1(t, q[j]) THEN No ELSE FuSum(t, Tail(q), Ok(q[1]))
    IN  [i \in 1..Size(s.h, xs[1]) |-> at(i)]

(***************************************************************************)
(* Into a variable z that is there already: of the type and shape of the   *)
(* result.  Excluded: other ones, and storage of an argument               *)
(***************************************************************************)
FuPlace(s, z, t, d, xs) ==
    IF ~FuDense(s.h, z) THEN FALSE
    ELSE /\ AType(s.h, z[2]) = t /\ ShapeOf(s.h, z) = d
         /\ \A i \in 1..Len(xs) : IsRef(xs[i]) => BaseOf(s.h, xs[i][2]) # BaseOf(s.h, z[2])
FuBad(q) == \E i \in 1..Len(q) : q[i].ok # "ok"
FuXs(q) == [i \in 1..Len(q) |-> q[i].x]

FuApply(s, op) ==
    LET o == op[1] IN
    CASE o = "fu1" ->
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET x == Get(y.s, y.r)
                    can == FuCan1(y.s, op[2], x)
                IN  IF can = "none" THEN (IF op[2] \in {"last", "turn", "rows"} THEN Skip(s) ELSE LET c == Tree(y.s, x) IN Assign(c.s, <<"x", op[4]>>, c.x))
                    ELSE IF can # "ok" THEN Out(y.s, Nil, can)
                    ELSE LET q == FuUnary(y.s, op[2], x) IN
                         IF FuBad(q) THEN Skip(s) ELSE Into(FuNew(y.s, op[2], x, q), op[4])
      [] o = "fu1i" ->
           LET x == s.v[op[3]]
               z == s.v[op[4]]
               can == FuCan1(s, op[2], x)
           IN  IF can # "ok" THEN (IF can # "throw" \/ op[2] = "twice" \/ ~FuDense(s.h, z) \/ ~IsRef(x) THEN Skip(s)
                                   ELSE IF ShapeOf(s.h, x) # ShapeOf(s.h, z) \/ BaseOf(s.h, x[2]) = BaseOf(s.h, z[2]) THEN Skip(s) ELSE Throw(s))
               ELSE IF ~FuPlace(s, z, AType(s.h, x[2]), FuOut(op[2], ShapeOf(s.h, x)), <<x>>) THEN Skip(s)
               ELSE LET q == FuUnary(s, op[2], x) IN IF FuBad(q) THEN Skip(s) ELSE Done(FuWrite(s, z, FuXs(q)))
      [] o = "fu2" ->
           LET y == Operand(s, op[4]) IN
           IF y.ok # "ok" THEN y
           ELSE LET x == y.s.v[op[3]]
                    v == Get(y.s, y.r)
                    can == FuCan2(y.s, op[2], x, v)
                IN  IF can # "ok" THEN Out(y.s, Nil, can)
                    ELSE LET q == FuBinary(y.s, op[2], x, v) IN
                         IF FuBad(q) THEN Skip(s) ELSE Into(FuNew(y.s, op[2], x, q), op[5])
      [] o = "fu2i" ->
           LET x == s.v[op[3]]
               y == s.v[op[4]]
               z == s.v[op[5]]
               can == FuCan2(s, op[2], x, y)
           IN  IF can = "skip" THEN Skip(s)
               ELSE IF ~FuPlace(s, z, AType(s.h, x[2]), ShapeOf(s.h, x), <<x, y>>) THEN Skip(s)
               ELSE IF can # "ok" THEN Out(s, Nil, can)
               ELSE LET q == FuBinary(s, op[2], x, y) IN IF FuBad(q) THEN Skip(s) ELSE Done(FuWrite(s, z, FuXs(q)))
      [] o = "fua" ->       \* Excluded: double complex
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET x == y.s.v[op[2]]
                    v == Get(y.s, y.r)
                    zs(w) == LET q == Dfs(y.s.h, <<w>>, <<>>) IN \E i \in 1..Len(q) : y.s.h[q[i]].t = "z"
                IN  IF IsNil(x) \/ IsNil(v) \/ v[1] = "z" THEN Skip(s)
                    ELSE IF zs(x) \/ zs(v) THEN Skip(s)
                    ELSE LET r == OutOf(y.s, "rsub", x, v) IN
                         IF r.ok # "ok" THEN Out(y.s, Nil, r.ok) ELSE Into(Out(r.s, r.x, "ok"), op[4])
      [] o = "fux" ->
           LET y == Operand(s, op[3]) IN
           IF y.ok # "ok" THEN y
           ELSE LET x == Get(y.s, y.r) IN
                IF ~IsRef(x) THEN Skip(s)
                ELSE IF AType(y.s.h, x[2]) # "v" \/ IsView(y.s.h, x) THEN Skip(s)
                ELSE LET xs == FuItems(y.s, x)
                         can == FuCanN(y.s, op[2], xs)
                     IN  IF can # "ok" THEN Out(y.s, Nil, can)
                         ELSE LET q == FuNary(y.s, xs) IN
                              IF FuBad(q) THEN Skip(s) ELSE Into(FuNew(y.s, op[2], xs[1], q), op[4])
      [] o = "fuxi" ->
           LET x == s.v[op[3]]
               z == s.v[op[4]]
           IN  IF ~IsRef(x) THEN Skip(s)
               ELSE IF AType(s.h, x[2]) # "v" \/ IsView(s.h, x) THEN Skip(s)
               ELSE LET xs == FuItems(s, x)
                        can == FuCanN(s, op[2], xs)
                    IN  IF can # "ok" THEN (IF FuDense(s.h, z) /\ can = "throw" /\ xs # <<>> THEN (IF \E i \in 1..Len(xs) : ShapeOf(s.h, xs[i]) # ShapeOf(s.h, z) THEN Skip(s) ELSE Throw(s)) ELSE Skip(s))
                        ELSE IF ~FuPlace(s, z, AType(s.h, xs[1][2]), ShapeOf(s.h, xs[1]), xs) THEN Skip(s)
                        ELSE LET q == FuNary(s, xs) IN IF FuBad(q) THEN Skip(s) ELSE Done(FuWrite(s, z, FuXs(q)))
      [] o = "fu0" ->       \* no argument: nothing to make room from, or a count
           IF op[2] = "none" THEN Throw(s)
           ELSE IF op[3] = 0 THEN Skip(s)
           ELSE LET v == FuView(s, "d", <<op[3]>>, [i \in 1..op[3] |-> 4 * (i - 1)]) IN Assign(v.s, <<"x", op[4]>>, v.x)
FuOps == {"fu1", "fu1i", "fu2", "fu2i", "fua", "fux", "fuxi", "fu0"}
=============================================================================
