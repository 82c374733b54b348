------------------------------- MODULE ArithGen ------------------------------
EXTENDS Arith, StoreGen
(***************************************************************************)
(* Generation                                                              *)
(***************************************************************************)
AF == <<"add", "add", "sub", "mul", "mul", "div", "pow", "set">>
(* large values: more than a float, or an int, holds *)
ABig(t) == CASE t = "i" -> R({16777217, -16777219, 65537, -70001, 99999999})
             [] t = "l" -> R({16777217, -99999997, 399999999, 500000001, 500000002, -500000003, 500000004, 500000005})
             [] t = "f" -> R({15999999, -8388609, 262145, 65540})
             [] t = "d" -> R({67108868, -67108869, 262145, 999999999, -1500000001, 2000000004, 2000000008, -2000000012, 2000000016, 2000000020})
             [] t = "y" -> <<R({15999996, 65540, -8}), R({8, -1048580})>>
             [] t = "z" -> <<R({67108868, -262148, 4}), R({-67108868, 400000004, 8})>>
             [] t = "c" -> R({127, -128, 126})
AVal(t) == IF Chance(14) THEN ABig(t) ELSE IF IsCx(t) THEN <<4 * R(-2..2), 4 * R(-2..2)>> ELSE IF t = "c" THEN R({1, 2, 3, 49, 97, -1, 100})
           ELSE IF IsInt(t) THEN R(-5..5) ELSE R({-12, -8, -4, -2, 0, 1, 2, 3, 4, 6, 8, 12, 16})
AType1(st) == Pick(<<"f", "f", "d", "d", "i", "l", "y", "z", "c">>)
AArr(st, n) == LET t == AType1(st) IN <<"a", t, [i \in 1..n |-> AVal(t)]>>
AOne(st) == LET t == AType1(st) IN <<t, AVal(t)>>
ALit(st) ==
    LET k == R(1..14) IN
    IF k <= 4 THEN AOne(st)
    ELSE IF k <= 6 THEN AArr(st, R({0, 1, 2, 2, 3, 3, 4, 6}))
    ELSE IF k = 7 THEN Str(Pick(<<<<49>>, <<50>>, <<32, 45, 51>>, <<97>>, <<>>, <<49, 50>>>>))
    ELSE IF k <= 10 THEN LET d == Pick(<<<<2, 2>>, <<2, 3>>, <<3, 2>>, <<2>>, <<3>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 2, 2>>>>)
                             o == R({0, 0, 1})
                         IN  <<"w", AArr(st, Prod(d) + o + R({0, 0, 2})), d, o>>
    ELSE IF k = 11 THEN Nil
    ELSE IF k = 12 THEN <<"m", <<<<Str(<<97>>), AOne(st)>>, <<Str(<<98>>), AArr(st, 2)>>>>>>
    ELSE <<"v", [i \in 1..R(0..3) |-> IF Chance(3) THEN AArr(st, R(1..3)) ELSE IF Chance(9) THEN Nil ELSE IF Chance(5) THEN <<"v", <<AOne(st), AOne(st)>>>> ELSE AOne(st)]>>
ASrc(st) ==
    LET k == R(1..9)
        y == R(Vars)
    IN  IF k <= 4 THEN <<"L", ALit(st)>>
        ELSE IF k <= 7 THEN <<"P", y, <<>>>>
        ELSE <<Pick(<<"P", "A">>), y, RPath(st, st.v[y], 2)>>
(* an operand that agrees with x in type and shape *)
Like(st, x) ==
    LET t == AType(st.h, x[2])
        d == ShapeOf(st.h, x)
        k == R(1..Len(d))
        e == SubSeq(d, k, Len(d))
    IN  IF t \in {"v", "p"} THEN <<"L", AOne(st)>>
        ELSE LET a == <<"a", t, [i \in 1..Prod(e) |-> AVal(t)]>> IN <<"L", IF Len(e) = 1 /\ Chance(2) THEN a ELSE <<"w", a, e, 0>>>>
ARight(st, x) == IF IsRef(x) /\ Size(st.h, x) > 0 /\ Chance(2) THEN Like(st, x) ELSE ASrc(st)
AFor(st, x) ==
    IF Chance(8) THEN Pick(AF)
    ELSE IF IsRef(x) THEN IF Size(st.h, x) > 0 /\ AType(st.h, x[2]) \in {"f", "d"} THEN Pick(<<"add", "sub", "mul", "mul", "mul", "div", "pow", "set">>) ELSE Pick(<<"add", "sub", "div", "set">>)
    ELSE Pick(AF)
CFor(st, x) == LET f == AFor(st, x) IN IF f = "pow" THEN "mul" ELSE IF f = "set" THEN "add" ELSE f
APow(st, f) == IF f = "pow" /\ ~Chance(6) THEN <<"L", Pick(<<<<"i", 2>>, <<"i", 1>>, <<"f", 8>>, <<"d", 0>>, <<"a", "d", <<8>>>>, Str(<<50>>)>>)>> ELSE <<>>
FSrc(st, f, y) == LET p == APow(st, f) IN IF p = <<>> THEN y ELSE p
AOp(st, c) ==
    LET x == R(Vars)
        X == st.v[x]
    IN  CASE c = "alit" -> <<"set", x, <<>>, <<"L", ALit(st)>>>>
          [] c = "bin" -> LET f == AFor(st, X) IN <<"bin", f, x, FSrc(st, f, ARight(st, X)), R(Vars)>>
          [] c = "cpd" -> <<"cpd", CFor(st, X), x, <<>>, ARight(st, X)>>
          [] c = "cpde" -> <<"cpd", CFor(st, X), x, RPath(st, X, 2), ASrc(st)>>
          [] c = "cpds" -> <<"cpd", CFor(st, X), x, <<>>, <<Pick(<<"P", "A">>), x, RPath(st, X, 1)>>>>
          [] c = "tri" -> <<"tri", AFor(st, X), x, R(Vars), R(Vars)>>
          [] c = "neg" -> <<"neg", x, R(Vars)>>
          [] c = "like" -> IF IsRef(X) /\ Size(st.h, X) > 0 THEN <<"set", R(Vars), <<>>, Like(st, X)>> ELSE <<"set", x, <<>>, <<"L", AArr(st, 3)>>>>
          [] c = "subw" -> <<"subv", x, R(Vars), R({1, 1, 2}), R({0, 0, 1, 2, 3, 4})>>
          [] OTHER -> GenOp(st, c)
ACats == <<"alit", "alit", "alit", "bin", "bin", "bin", "bin", "cpd", "cpd", "cpd", "cpd", "cpde", "cpde", "cpds", "tri", "tri", "tri", "neg", "like", "like",
           "like", "subw", "share", "copy", "put", "store", "view", "nil">>
AStep(st, op) ==
    IF op[1] \in AOps
    THEN LET a == AApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
         ELSE IF \E i \in 1..Len(a.s.h) : a.s.h[i].k = "m" /\ ~SortedMap(a.s.h, a.s.h[i])
              THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
         ELSE IF ~Acyclic(a.s.h) THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE Step(st, op)
(* most operations that fail are of no interest *)
Keep(q) == q.a.ok = "ok" \/ (q.a.ok = "throw" /\ Chance(6))
ArNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {AOp(s, Pick(ACats))} :
       \E q \in {AStep(s, op)} :
         IF ~Keep(q) \/ ~InBounds(q.t)
         THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every type, shape up to a size and offset, with operands of each        *)
(* trailing shape                                                          *)
(***************************************************************************)
ArDet(t, n, k) ==
    [i \in 1..n |-> LET v == ((i * i * k + 3 * i + k) % 13) - 6 IN IF IsCx(t) THEN <<4 * v, 4 * ((i * k) % 3)>> ELSE IF IsInt(t) THEN v ELSE 4 * v]
ArTwo(t, n) ==       \* things that can be divided by
    [i \in 1..n |-> IF IsCx(t) THEN <<<<4, 0>>, <<8, 0>>, <<0, 4>>, <<-4, 0>>>>[(i % 4) + 1]
                    ELSE IF IsInt(t) THEN <<1, 2, -1, 3>>[(i % 4) + 1] ELSE <<4, 8, -4, 2>>[(i % 4) + 1]]
ArWin(t, e, d, o) == IF Len(d) = 1 /\ o < 0 THEN <<"a", t, e>> ELSE LET n == IF o < 0 THEN 0 ELSE o IN <<"w", <<"a", t, ArDet(t, n, 1) \o e \o ArDet(t, n, 2)>>, d, n>>
ArMat(t, d, o, k) == ArWin(t, ArDet(t, Prod(d), k), d, o)
ArOther(t) == IF t = "d" THEN "f" ELSE IF t = "i" THEN "l" ELSE "d"
ArL(l) == <<"L", l>>
ArNil == <<"set", 3, <<>>, ArL(Nil)>>
ArWith(t, d, o, e) ==
    <<<<"set", 2, <<>>, ArL(ArMat(t, e, o, 5))>>,
      <<"bin", "add", 1, <<"P", 2, <<>>>>, 3>>, ArNil, <<"bin", "sub", 1, <<"P", 2, <<>>>>, 3>>, ArNil, <<"bin", "mul", 1, <<"P", 2, <<>>>>, 3>>, ArNil, <<"bin", "set", 1, <<"P", 2, <<>>>>, 3>>, ArNil,
      <<"set", 3, <<>>, ArL(ArMat(t, d, 1, 4))>>, <<"tri", "sub", 1, 2, 3>>, <<"tri", "mul", 1, 2, 3>>,
      <<"cpd", "add", 1, <<>>, <<"P", 2, <<>>>>>>, <<"tri", "sub", 1, 2, 1>>, ArNil,
      <<"set", 2, <<>>, ArL(ArWin(t, ArTwo(t, Prod(e)), e, 1))>>,
      <<"bin", "div", 1, <<"P", 2, <<>>>>, 3>>, ArNil>>
ArSingle(t, y) ==
    <<<<"bin", "add", 1, y, 3>>, ArNil, <<"bin", "sub", 1, y, 3>>, ArNil, <<"bin", "mul", 1, y, 3>>, ArNil, <<"bin", "div", 1, y, 3>>, ArNil>>
RECURSIVE ArEnds(_, _, _, _)
ArEnds(t, d, o, k) == IF k > Len(d) THEN <<>> ELSE ArWith(t, d, o, SubSeq(d, k, Len(d))) \o ArEnds(t, d, o, k + 1)
ArProg(t, d, o) ==
    <<<<"set", 1, <<>>, ArL(ArMat(t, d, o, 3))>>>>
    \o ArEnds(t, d, o, 1)
    \o ArSingle(t, ArL(<<t, IF IsCx(t) THEN <<8, 0>> ELSE IF IsInt(t) THEN 2 ELSE 8>>)) \o ArSingle(t, ArL(<<"i", 2>>))
    \o ArSingle(t, ArL(<<"a", t, <<IF IsCx(t) THEN <<4, 0>> ELSE IF IsInt(t) THEN 1 ELSE 2>>>>))
    \o <<<<"bin", "pow", 1, ArL(<<"i", 2>>), 3>>, ArNil, <<"neg", 1, 3>>, <<"tri", "add", 1, 1, 3>>, <<"cpd", "sub", 3, <<>>, ArL(<<"i", 1>>)>>,
         <<"cpd", "mul", 3, <<>>, ArL(<<"d", 8>>)>>, <<"cpd", "div", 3, <<>>, ArL(<<"d", 8>>)>>, <<"set", 2, <<>>, ArL(<<t, IF IsCx(t) THEN <<4, 0>> ELSE 1>>)>>,
         <<"tri", "add", 1, 2, 1>>, <<"cpd", "add", 1, <<>>, <<"P", 1, <<>>>>>>,
         <<"bin", "add", 1, ArL(ArMat(ArOther(t), d, o, 2)), 3>>, <<"cpd", "sub", 1, <<>>, ArL(ArMat(t, <<2>> \o d, 0, 2))>>,
         <<"bin", "sub", 1, ArL(ArMat(t, SubSeq(d, 1, Len(d) - 1) \o <<d[Len(d)] + 1>>, 0, 2)), 3>>>>
(* large numbers, with what they can be combined with *)
ArBigs(t) == CASE t = "i" -> <<16777217, -16777219, 65537, 20000>> [] t = "l" -> <<399999999, 500000001, 500000004, -500000002, 500000005>>
               [] t = "f" -> <<15999999, -8388609, 262145>> [] t = "d" -> <<67108868, -67108869, 2000000004, -2000000012, 2000000016, 2000000020>>
               [] t = "y" -> <<<<15999996, 65540>>, <<-8, 1048580>>>> [] t = "z" -> <<<<67108868, -262148>>, <<4, 400000004>>>> [] t = "c" -> <<127, -128, 126, -127>>
ArSmall(t, k) == IF IsCx(t) THEN <<4 * k, 0>> ELSE IF IsInt(t) THEN k ELSE 4 * k
ArSame(t, n, k) == [i \in 1..n |-> ArSmall(t, k)]
ArBigOps(t, y) == ArSingle(t, y) \o <<<<"cpd", "add", 1, <<>>, y>>, <<"cpd", "sub", 1, <<>>, y>>>>
ArBig(t, x) ==
    LET n == IF x[1] = "a" THEN Len(x[3]) ELSE 1 IN
    <<<<"set", 1, <<>>, ArL(x)>>, <<"neg", 1, 3>>, ArNil, <<"bin", "sub", 1, <<"P", 1, <<>>>>, 3>>, ArNil, <<"bin", "div", 1, <<"P", 1, <<>>>>, 3>>, ArNil>>
    \o ArBigOps(t, ArL(<<"i", 1>>)) \o ArBigOps(t, ArL(<<"i", 0>>)) \o ArBigOps(t, ArL(<<t, ArSmall(t, -1)>>)) \o ArBigOps(t, ArL(<<"a", t, ArSame(t, n, 1)>>)) \o ArBigOps(t, ArL(<<"a", t, ArSame(t, n, 0)>>))
    \o ArBigOps(t, ArL(<<"f", 8>>)) \o ArBigOps(t, ArL(<<"d", 16>>))
RECURSIVE ArBigProg(_, _)
ArBigProg(t, k) ==
    IF k > Len(ArBigs(t)) THEN <<>>
    ELSE ArBig(t, <<t, ArBigs(t)[k]>>) \o ArBig(t, <<"a", t, <<ArBigs(t)[k]>>>>) \o ArBigProg(t, k + 1)
RECURSIVE ArRun(_, _, _)
ArRun(st, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET q == AStep(st, Head(ops)) IN
         IF q.a.ok = "skip" THEN ArRun(st, Tail(ops), acc)
         ELSE ArRun(q.t, Tail(ops), Append(acc, <<Head(ops), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
(* MaxLen: how far the sizes go *)
ArMore == {<<a, b>> : a \in 1..4, b \in 1..5} \cup {<<a, b, c>> : a \in 1..3, b \in 1..2, c \in 1..3} \cup
          {<<2, 17>>, <<17, 2>>, <<9, 8>>, <<3, 33>>, <<33, 3>>, <<2, 2, 2, 3>>, <<1, 2, 1, 2>>, <<2, 1, 3, 1>>, <<2, 3, 9>>, <<5, 16>>, <<16, 5>>}
ArInit == /\ s = Empty(3) /\ hist = <<>>
          /\ last \in {<<t, <<n>>, o>> : t \in {"f", "d", "i", "l", "y", "z", "c"}, n \in 1..MaxLen \cup {33, 64, 65, 66, 100, 128, 129}, o \in {-1, 0, 2}}
                      \cup {<<t, <<0>>, 9>> : t \in {"f", "d", "i", "l", "y", "z", "c"}}
                      \cup {<<t, d, o>> : t \in {"f", "d", "i", "l", "y", "z", "c"}, d \in ArMore, o \in {0, 3}}
ArAll == /\ hist = <<>>
         /\ hist' = <<1>>
         /\ PrintT("T" \o ToJson(ArRun(s, IF last[3] = 9 THEN ArBigProg(last[1], 1) \o ArBig(last[1], <<"a", last[1], ArBigs(last[1])>>) ELSE ArProg(last[1], last[2], last[3]), <<>>)))
         /\ UNCHANGED <<s, last>>
=============================================================================
