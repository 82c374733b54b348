------------------------------ MODULE LinearGen ------------------------------
EXTENDS Linear, ArithGen
LVal(t) == IF IsCx(t) THEN <<4 * R(-3..3), 4 * R(-3..3)>> ELSE IF IsInt(t) THEN R(-5..5) ELSE R({-28, -20, -12, -8, -4, 0, 0, 4, 4, 8, 12, 16, 20, 2, -2})
LType(st) == Pick(<<"d", "d", "f", "f", "y", "z", "i">>)
LDims(st) == Pick(<<<<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<1, 3>>, <<3, 1>>, <<2, 1>>, <<1, 1>>, <<2, 4>>, <<2, 2, 3>>, <<2, 3, 2>>, <<3, 1, 2>>, <<2, 2, 2>>, <<3>>, <<2>>, <<1>>>>)
LWin(st, t, d) == LET o == R({0, 0, 1, 2}) IN <<"w", <<"a", t, [i \in 1..Prod(d) + o + R({0, 0, 1}) |-> LVal(t)]>>, d, o>>
LArr(st, t, n) == <<"a", t, [i \in 1..n |-> LVal(t)]>>
LAny(st, t) == IF Chance(3) THEN LArr(st, t, R(1..4)) ELSE LWin(st, t, LDims(st))
(* something that can be multiplied with x from the right *)
LFit(st, x) ==
    LET t == IF Chance(9) THEN LType(st) ELSE ElemType(st.h, x)
        d == DimsOf(st.h, x)
        n == IF Chance(9) THEN R(1..3) ELSE Low(d)
        k == R(1..5)
    IN  IF t \notin {"f", "d", "y", "z", "i", "l"} THEN <<"L", <<"d", 4>>>>
        ELSE IF k = 1 THEN <<"L", LArr(st, t, n)>>
        ELSE IF k = 2 THEN <<"L", LWin(st, t, <<n>>)>>
        ELSE <<"L", LWin(st, t, <<n, R(1..3)>>)>>
(* things to be put side by side with something of shape d *)
LSide(st, t, d) ==
    LET f == Front1(d)
        k == R(1..6)
    IN  IF k = 1 /\ Len(d) > 1 THEN (IF Chance(2) \/ Len(f) > 1 THEN LWin(st, t, f) ELSE LArr(st, t, f[1]))
        ELSE IF k = 2 /\ Chance(3) THEN LAny(st, t)
        ELSE IF k = 3 /\ Chance(4) THEN Pick(<<Nil, <<t, LVal(t)>>, <<"a", t, <<>>>>, Str(<<97, 98>>)>>)
        ELSE IF Len(d) = 1 /\ Chance(2) THEN LArr(st, t, R(1..3))
        ELSE LWin(st, t, f \o <<R(1..3)>>)
LParts(st) ==
    LET t == LType(st)
        d == LDims(st)
        n == R(0..3)
    IN  <<"v", <<IF Len(d) = 1 /\ Chance(2) THEN LArr(st, t, d[1]) ELSE LWin(st, t, d)>> \o [i \in 1..n |-> LSide(st, IF Chance(12) THEN LType(st) ELSE t, d)]>>
LSrc(st) ==
    LET k == R(1..12)
        y == R(Vars)
    IN  IF k <= 4 THEN <<"P", y, <<>>>> ELSE IF k <= 8 THEN <<"L", LAny(st, LType(st))>>
        ELSE IF k <= 10 THEN LET t == LType(st) IN <<"L", <<t, LVal(t)>>>>
        ELSE <<Pick(<<"P", "A">>), y, RPath(st, st.v[y], 2)>>
LVars(st, P(_)) == LET q == {y \in Vars : P(y)} IN IF q = {} THEN R(Vars) ELSE R(q)
LOp(st, c) ==
    LET x == R(Vars)
        X == st.v[x]
        z == R(Vars)
        flat == IsRef(X) /\ ~IsMap(st.h, X) /\ AType(st.h, X[2]) # "v" /\ Size(st.h, X) > 0
    IN  CASE c = "lany" -> <<"set", x, <<>>, <<"L", LAny(st, LType(st))>>>>
          [] c = "lmat" -> <<"set", x, <<>>, <<"L", LWin(st, Pick(<<"d", "f">>), LDims(st))>>>>
          [] c = "red" -> <<"red", Pick(<<"sum", "asum", "iamax", "transpose">>), LSrc(st), z>>
          [] c = "cat" -> <<"red", "cat", IF Chance(5) THEN <<"P", x, <<>>>> ELSE <<"L", LParts(st)>>, z>>
          [] c = "parts" -> <<"set", x, <<>>, <<"L", LParts(st)>>>>
          [] c = "flip" -> <<"flip", LVars(st, LAMBDA y : Transposable(st, st.v[y]) = "ok")>>
          [] c = "dot" -> <<"dot", x, IF flat /\ ~Chance(4) THEN LFit(st, X) ELSE LSrc(st), z>>
          [] c = "self" -> <<"dot", x, <<Pick(<<"P", "A">>), x, IF Chance(2) THEN <<>> ELSE RPath(st, X, 1)>>, z>>
          [] c = "swap" -> <<"swap", x, LVars(st, LAMBDA y : y # x /\ IsRef(st.v[y]) /\ IsRef(X) /\ ShapeOf(st.h, st.v[y]) = ShapeOf(st.h, X) /\ ~Chance(5))>>
          [] c = "like" -> IF flat THEN LET t == AType(st.h, X[2]) IN
                              <<"set", z, <<>>, <<"L", IF IsView(st.h, X) /\ t \in {"f", "d", "y", "z"} THEN LWin(st, t, ShapeOf(st.h, X)) ELSE LArr(st, Pick(<<"d", "f">>), 3)>>>>
                           ELSE <<"set", x, <<>>, <<"L", LWin(st, "d", LDims(st))>>>>
          [] c = "redi" -> <<"redi", Pick(<<"sum", "asum", "iamax", "transpose", "cat">>), x, z>>
          [] c = "doti" -> <<"doti", x, R(Vars), z>>
          [] c = "room" -> LET r == Pick(<<"sum", "iamax", "transpose">>)       \* a place for a result
                               d == DimsOf(st.h, X)
                           IN  IF ~flat \/ Len(d) < 2 THEN <<"set", z, <<>>, <<"L", Pick(<<<<"d", 4>>, <<"f", 4>>, <<"l", 4>>>>)>>>>
                               ELSE LET t == IF r = "iamax" THEN "l" ELSE AType(st.h, X[2]) IN
                                    IF t \notin {"f", "d", "l", "y"} THEN <<"set", z, <<>>, <<"L", <<"y", <<4, 4>>>>>>>>
                                    ELSE <<"set", z, <<>>, <<"L", LWin(st, t, IF r = "transpose" THEN Flip(d) ELSE Front1(d) \o <<1>>)>>>>
          [] c = "vget" -> GenOp(st, "vget")
          [] OTHER -> AOp(st, c)
LCats == IF Profile = "flip" THEN <<"lmat", "lmat", "lmat", "lany", "flip", "flip", "flip", "redi", "redi", "red", "red", "red", "room", "room", "like", "subw", "share", "view", "offs">> ELSE
         <<"lany", "lany", "lmat", "lmat", "lmat", "red", "red", "red", "red", "cat", "cat", "parts", "flip", "flip", "dot", "dot", "dot", "dot", "self", "swap", "swap", "like", "like",
           "redi", "redi", "doti", "room", "room", "subw", "subw", "share", "share", "copy", "view", "offs", "shape", "bin", "vset", "nil", "alit">>
LStep(st, op) ==
    IF op[1] \in LOps
    THEN LET a == LApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
         ELSE IF ~Acyclic(a.s.h) THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE AStep(st, op)
LNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {LOp(s, Pick(LCats))} :
       \E q \in {LStep(s, op)} :
         IF ~Keep(q) \/ ~InBounds(q.t)
         THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every shape of a stack of matrices up to a size, at an offset or not,   *)
(* with every inner dimension                                              *)
(***************************************************************************)
CONSTANTS Big
Det(t, n, k) ==      \* some numbers
    [i \in 1..n |-> LET v == ((i * i * k + 5 * i + k) % 11) - 5 IN IF IsCx(t) THEN <<4 * v, 4 * ((i * k) % 3)>> ELSE 4 * v]
Mat(t, d, o, k) == <<"w", <<"a", t, Det(t, Prod(d) + o, k)>>, d, o>>
P(x) == <<"P", x, <<>>>>
LIn(l) == <<"L", l>>
AllShapes(t, d, o) ==
    LET n == Low(d)
        m == d[Len(d) - 1]
    IN  <<<<"set", 1, <<>>, LIn(Mat(t, d, o, 3))>>,
          <<"red", "sum", P(1), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"red", "asum", P(1), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"red", "iamax", P(1), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"dot", 1, LIn(<<"a", t, Det(t, n, 2)>>), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"dot", 1, LIn(Mat(t, <<n>>, 1, 4)), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"dot", 1, LIn(Mat(t, <<n, 1>>, 0, 4)), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"dot", 1, LIn(Mat(t, <<n, 2>>, 1, 5)), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"dot", 1, LIn(Mat(t, <<n, Big>>, 0, 7)), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"dot", 1, LIn(Mat(t, <<n + 1, 2>>, 0, 7)), 2>>, <<"dot", 1, LIn(<<"a", t, Det(t, n + 1, 2)>>), 2>>,
          <<"dot", 1, LIn(Mat(t, <<m, n>>, 0, 7)), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"red", "cat", LIn(<<"v", <<Mat(t, d, o, 3), Mat(t, d, 0, 5)>>>>), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"red", "cat", LIn(<<"v", <<Mat(t, d, 0, 3), Mat(t, Front1(d), o, 5), Mat(t, Front1(d) \o <<2>>, 1, 2)>>>>), 2>>, <<"set", 2, <<>>, LIn(Nil)>>,
          <<"set", 3, <<>>, LIn(Mat(t, d, 2, 9))>>, <<"swap", 1, 3>>, <<"swap", 1, 3>>, <<"swap", 3, 1>>,
          <<"red", "transpose", P(1), 2>>, <<"red", "transpose", P(2), 3>>, <<"flip", 1>>, <<"flip", 1>>, <<"flip", 2>>, <<"redi", "transpose", 1, 3>> >>
RECURSIVE LRun(_, _, _)
LRun(st, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET q == LStep(st, Head(ops)) IN
         IF q.a.ok = "skip" THEN LRun(st, Tail(ops), acc)
         ELSE LRun(q.t, Tail(ops), Append(acc, <<Head(ops), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
Shapes == {<<a, b>> : a \in 1..Big, b \in 1..Big} \cup {<<k, a, b>> : k \in 1..2, a \in 1..Big - 1, b \in 1..Big - 1}
          \cup {<<2, 17>>, <<17, 2>>, <<9, 8>>, <<2, 3, 9>>, <<3, 33>>, <<33, 3>>, <<2, 2, 2, 3>>, <<1, 2, 3, 2>>, <<2, 1, 2, 1>>, <<3, 2, 9, 2>>, <<1, 100>>, <<65, 1>>}
LInit == /\ s = Empty(3) /\ hist = <<>>
         /\ last \in {<<t, d, o>> : t \in {"f", "d", "y", "z"}, d \in Shapes, o \in 0..1}
LAll == /\ hist = <<>>
        /\ hist' = <<1>>
        /\ PrintT("T" \o ToJson(LRun(s, AllShapes(last[1], last[2], last[3]), <<>>)))
        /\ UNCHANGED <<s, last>>

(* the model itself: what the operations mean *)
Same(st, x, y) == IsRef(x) /\ IsRef(y) /\ ShapeOf(st.h, x) = ShapeOf(st.h, y) /\ \A i \in 0..Size(st.h, x) - 1 : Elem(st.h, x, i) = Elem(st.h, y, i)
TransposeBack == \A x \in Vars :
    LET a == Flipped(s, s.v[x])
        b == Flipped(a.s, a.r)
    IN  a.ok = "ok" => b.ok = "ok" /\ Same(b.s, s.v[x], b.r)
(* the transpose of a product is the product of the transposes, the other way around *)
ProductBack == \A x \in Vars, y \in Vars :
    LET p == DotOp(s, s.v[x], s.v[y])
        tx == Flipped(p.s, p.s.v[x])
        ty == Flipped(tx.s, tx.s.v[y])
        q == DotOp(ty.s, ty.r, tx.r)
        tp == Flipped(q.s, p.r)
    IN  (p.ok = "ok" /\ IsRef(s.v[x]) /\ IsRef(s.v[y]) /\ Len(ShapeOf(s.h, s.v[x])) = 2 /\ Len(ShapeOf(s.h, s.v[y])) = 2) => q.ok = "ok" /\ Same(tp.s, tp.r, q.r)
=============================================================================
