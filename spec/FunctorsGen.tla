----------------------------- MODULE FunctorsGen -----------------------------
(***************************************************************************)
(* Generation of uses of functors that the program defines                 *)
(***************************************************************************)
EXTENDS Functors, ArithGen
CONSTANT MaxN

GType(st) == Pick(<<"d", "d", "d", "f", "i", "l", "c", "y", "z">>)
GDims(st) == Pick(<<<<1>>, <<3>>, <<4>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<2, 2, 2>>, <<2, 2, 3>>, <<1, 2, 3>>, <<2, 3, 2>>, <<2, 1, 3>>, <<2, 2, 1, 3>>>>)
GSeq(st, t, n) == [i \in 1..n |-> AVal(t)]
GLike(st, t, d) ==
    IF Len(d) = 1 /\ Chance(2) THEN <<"a", t, GSeq(st, t, d[1])>>
    ELSE LET o == R({0, 0, 1, 2}) IN <<"w", <<"a", t, GSeq(st, t, Prod(d) + o + R({0, 1}))>>, d, o>>
GLit(st) ==
    LET k == R(1..14) IN
    IF k = 1 THEN AOne(st)
    ELSE IF k = 2 THEN Str(Pick(<<<<>>, <<97>>, <<97, 98, 99>>>>))
    ELSE IF k = 3 THEN ALit(st)
    ELSE GLike(st, GType(st), GDims(st))
GList(st) ==
    LET t == GType(st)
        d == GDims(st)
        n == R(1..4)
        item == [i \in 1..n |->
                   IF i > 1 /\ Len(d) > 1 /\ Chance(4) THEN GLike(st, t, FuFront(d, 1))
                   ELSE IF i > 1 /\ Chance(6) THEN GLike(st, t, FuFront(d, 1) \o <<1>>)
                   ELSE IF i > 1 /\ Chance(10) THEN GLike(st, GType(st), d)
                   ELSE GLike(st, t, d)]
    IN  <<"v", item>>
GSrc(st) == LET x == R(Vars) IN IF Chance(2) THEN <<"P", x, <<>>>> ELSE IF Chance(2) THEN <<"L", GLit(st)>> ELSE <<Pick(<<"P", "A">>), x, RPath(st, st.v[x], 2)>>
GUn(st) == Pick(<<"rev", "rev", "scan", "scan", "last", "rows", "rows", "turn", "twice", "none">>)
GOf(st, x, f) == IF FuDense(st.h, x) THEN (IF f = "mix" /\ Chance(3) THEN GLike(st, AType(st.h, x[2]), FuFront(ShapeOf(st.h, x), 1) \o <<R(1..4)>>)
                                           ELSE GLike(st, IF Chance(8) THEN GType(st) ELSE AType(st.h, x[2]), ShapeOf(st.h, x)))
                 ELSE GLit(st)
GVars(st, P(_)) == LET q == {y \in Vars : P(y)} IN IF q = {} THEN R(Vars) ELSE R(q)
GOp(st, c) ==
    LET x == R(Vars)
        X == st.v[x]
        z == R(Vars)
        f == GUn(st)
        b == Pick(<<"mix", "mix", "plus", "none">>)
        n == Pick(<<"total0", "total1", "total1", "total2", "nonen">>)
    IN  CASE c = "glit" -> <<"set", x, <<>>, <<"L", GLit(st)>>>>
          [] c = "glist" -> <<"set", x, <<>>, <<"L", GList(st)>>>>
          [] c = "glike" -> <<"set", x, <<>>, <<"L", GOf(st, st.v[z], "plus")>>>>
          [] c = "groom" -> IF FuDense(st.h, X) /\ Size(st.h, X) > 0 /\ (f # "turn" \/ Len(ShapeOf(st.h, X)) > 1)
                            THEN <<"set", z, <<>>, <<"L", GLike(st, AType(st.h, X[2]), FuOut(f, ShapeOf(st.h, X)))>>>> ELSE <<"set", x, <<>>, <<"L", GLit(st)>>>>
          [] c = "fu1" -> <<"fu1", f, GSrc(st), z>>
          [] c = "fu1i" -> <<"fu1i", f, x, GVars(st, LAMBDA y : FuDense(st.h, st.v[y]) /\ FuDense(st.h, X) /\ ShapeOf(st.h, st.v[y]) = FuOut(IF f = "turn" /\ Len(ShapeOf(st.h, X)) < 2 THEN "rev" ELSE f, ShapeOf(st.h, X)) /\ y # x)>>
          [] c = "fu2" -> <<"fu2", b, x, IF Chance(4) THEN GSrc(st) ELSE <<"L", GOf(st, X, b)>>, z>>
          [] c = "fu2i" -> <<"fu2i", b, x, GVars(st, LAMBDA y : FuDense(st.h, st.v[y]) /\ FuDense(st.h, X) /\ ShapeOf(st.h, st.v[y]) = ShapeOf(st.h, X)),
                             GVars(st, LAMBDA y : FuDense(st.h, st.v[y]) /\ FuDense(st.h, X) /\ ShapeOf(st.h, st.v[y]) = ShapeOf(st.h, X) /\ y # x)>>
          [] c = "fua" -> <<"fua", x, IF Chance(2) THEN ARight(st, X) ELSE GSrc(st), z>>
          [] c = "fux" -> <<"fux", n, IF Chance(2) THEN <<"P", x, <<>>>> ELSE <<"L", GList(st)>>, z>>
          [] c = "fuxi" -> <<"fuxi", n, GVars(st, LAMBDA y : IsRef(st.v[y]) /\ AType(st.h, st.v[y][2]) = "v"), z>>
          [] c = "fu0" -> <<"fu0", Pick(<<"none", "count", "count">>), R(1..5), z>>
          [] OTHER -> AOp(st, c)
GCats == <<"glit", "glit", "glit", "glist", "glike", "glike", "groom", "groom", "fu1", "fu1", "fu1", "fu1", "fu1i", "fu1i", "fu2", "fu2", "fu2", "fu2i", "fu2i", "fua", "fua", "fua",
           "fux", "fux", "fux", "fuxi", "fuxi", "fu0", "alit", "subw", "share", "copy", "view", "offs", "nil">>
GStep(st, op) ==
    IF op[1] \in FuOps
    THEN LET a == FuApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
         ELSE IF ~Acyclic(a.s.h) THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE AStep(st, op)
GNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {GOp(s, Pick(GCats))} :
       \E q \in {GStep(s, op)} :
         IF ~Keep(q) \/ ~InBounds(q.t)
         THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every type and shape up to a size, at an offset or not                  *)
(***************************************************************************)
GP(x) == <<"P", x, <<>>>>
GL(l) == <<"L", l>>
GNil == <<"set", 3, <<>>, GL(Nil)>>
GFns == <<"rev", "scan", "last", "rows", "turn", "twice", "none">>
GMat(t, d, o, k) == ArWin(t, ArDet(t, Prod(d), k), d, o)
GPoint(t, d) == ArMat(t, FuFront(d, 1) \o <<1>>, 0, 2)
GProg(t, d, o) ==
    <<<<"set", 1, <<>>, GL(ArMat(t, d, o, 3))>>>>
    \o FuFlat([i \in 1..Len(GFns) |-> <<<<"fu1", GFns[i], GP(1), 3>>, GNil>> \o (IF Len(d) < 2 /\ GFns[i] = "turn" THEN <<>> ELSE
           <<<<"set", 2, <<>>, GL(ArMat(t, FuOut(GFns[i], d), 1, 2))>>, <<"fu1i", GFns[i], 1, 2>>>>)])
    \o <<<<"set", 2, <<>>, GL(ArMat(t, d, IF o = 2 THEN 0 ELSE 2, 5))>>, <<"fu2", "mix", 1, GP(2), 3>>, GNil, <<"fu2", "plus", 1, GP(2), 3>>, GNil, <<"fu2", "plus", 2, GP(1), 3>>, GNil, <<"fu2", "none", 1, GP(2), 3>>,
         <<"set", 3, <<>>, GL(ArMat(t, d, 1, 4))>>, <<"fu2i", "mix", 1, 2, 3>>, <<"fu2i", "plus", 1, 2, 3>>, <<"fu2", "mix", 1, GL(ArMat(t, FuFront(d, 1) \o <<2>>, 1, 6)), 3>>, GNil,
         <<"fu2", "mix", 1, GL(ArMat(ArOther(t), d, 0, 6)), 3>>, <<"fu2", "plus", 1, GL(ArMat(ArOther(t), d, 0, 6)), 3>>,
         <<"fua", 1, GP(2), 3>>, GNil, <<"fua", 1, GL(ArMat(t, <<d[Len(d)]>>, 1, 2)), 3>>, GNil, <<"fua", 1, GL(<<t, IF IsCx(t) THEN <<4, 4>> ELSE 2>>), 3>>, GNil,
         <<"set", 2, <<>>, GL(<<"v", <<ArMat(t, d, o, 3), ArMat(t, d, 0, 7), ArMat(t, d, 2, 5)>>>>)>>,
         <<"fux", "total0", GP(2), 3>>, GNil, <<"fux", "total1", GP(2), 3>>, GNil, <<"fux", "total2", GP(2), 3>>, GNil, <<"fux", "nonen", GP(2), 3>>,
         <<"set", 3, <<>>, GL(ArMat(t, d, 1, 4))>>, <<"fuxi", "total0", 2, 3>>, <<"fuxi", "total1", 2, 3>>, <<"fuxi", "total2", 2, 3>>, GNil,
         <<"fux", "total1", GL(<<"v", <<ArMat(t, d, o, 3), GPoint(t, d)>> \o (IF Len(d) > 1 THEN <<ArMat(t, FuFront(d, 1), 1, 2)>> ELSE <<>>)>>), 3>>, GNil,
         <<"fux", "total1", GL(<<"v", <<ArMat(t, d, o, 3)>>>>), 3>>, GNil, <<"fux", "total0", GL(<<"v", <<ArMat(t, d, o, 3)>>>>), 3>>, GNil,
         <<"fux", "total1", GL(<<"v", <<ArMat(t, d, o, 3), ArMat(ArOther(t), d, 0, 1)>>>>), 3>>,
         <<"fu0", "none", 1, 3>>, <<"fu0", "count", Prod(d), 3>>>>
RECURSIVE GRun(_, _, _)
GRun(st, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET q == GStep(st, Head(ops)) IN
         IF q.a.ok = "skip" THEN GRun(st, Tail(ops), acc)
         ELSE GRun(q.t, Tail(ops), Append(acc, <<Head(ops), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
GMore == {<<n>> : n \in 1..2 * MaxN} \cup {<<a, b>> : a \in 1..MaxN, b \in 1..MaxN} \cup {<<a, b, c>> : a \in 1..2, b \in 1..3, c \in 1..3} \cup {<<2, 2, 2, 2>>, <<2, 1, 3, 2>>, <<1, 2, 2, 3>>}
GInit == /\ s = Empty(3) /\ hist = <<>>
         /\ last \in {<<t, d, o>> : t \in {"f", "d", "i", "l", "y", "z", "c"}, d \in GMore, o \in {-1, 0, 2}}
GAll == /\ hist = <<>>
        /\ hist' = <<1>>
        /\ PrintT("T" \o ToJson(GRun(s, GProg(last[1], last[2], last[3]), <<>>)))
        /\ UNCHANGED <<s, last>>
=============================================================================
