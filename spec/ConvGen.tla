------------------------------- MODULE ConvGen -------------------------------
EXTENDS Conv, StoreGen
CTypes == <<"c", "i", "l", "f", "d", "y", "z">>
(* text: numbers in many spellings, and what is not quite one *)
Dg(st) == R({48, 48, 49, 50, 52, 53, 55, 57})
Digits(st, n) == [i \in 1..n |-> Dg(st)]
NumText(st) ==
    Pick(<<<<>>, <<>>, <<>>, <<32>>, <<10, 9>>>>) \o Pick(<<<<>>, <<>>, <<>>, <<45>>, <<43>>, <<45, 45>>>>) \o Digits(st, R(0..3))
    \o (IF Chance(2) THEN <<46>> \o Pick(<<<<>>, <<53>>, <<50, 53>>, <<55, 53>>, <<48>>, <<53, 48, 48>>>>) ELSE <<>>)
    \o (IF Chance(4) THEN <<R({101, 69})>> \o Pick(<<<<>>, <<45>>, <<43>>, <<>>>>) \o Pick(<<<<48>>, <<49>>, <<50>>, <<>>, <<48, 49>>>>) ELSE <<>>)
    \o Pick(<<<<>>, <<>>, <<>>, <<120>>, <<46>>, <<32, 55>>, <<101>>, <<44>>, <<41>>, <<0>>>>)
CText(st) ==
    LET k == R(1..8) IN
    IF k <= 5 THEN NumText(st)
    ELSE IF k = 6 THEN [i \in 1..R(0..4) |-> R({97, 45, 46, 101, 49, 32, 43, 40, 44, 41, -61})]
    ELSE <<40>> \o NumText(st) \o (IF Chance(2) THEN <<44>> \o NumText(st) ELSE <<>>) \o Pick(<<<<41>>, <<41>>, <<>>, <<32, 41, 120>>>>)
CNum(t) ==
    IF t \in {"y", "z"} THEN Pick(<<<<12, 16>>, <<-12, 16>>, <<0, -20>>, <<4, 0>>, <<0, 0>>, <<R(-16..16), R(-16..16)>>, <<-16, 0>>, <<-R({1, 4, 9, 36}), 0>>, <<20, -48>>>>)
    ELSE IF t = "c" THEN R({0, 1, 48, 51, 97, 127, -1, -128})
    ELSE IF IsInt(t) THEN R({0, 1, -1, 7, 127, 128, 255, 256, -129, 1000, -7})
    ELSE R({0, 4, 1, 2, 3, -1, -2, -3, -4, -5, -7, 5, 7, 9, 16, 36, 64, 100, 508, 512, -516, 4000, -64, 1023})
CDense(st) == LET t == Pick(<<"f", "f", "d", "d", "y", "z", "i", "c">>) IN <<"a", t, [i \in 1..R(0..4) |-> CNum(t)]>>
(* arrays on which a function is exact *)
NiceNum(f, t) ==
    LET q == IF f = "sqrt" THEN R({0, 1, 4, 9, 16, 36}) ELSE IF f = "log" THEN 4 ELSE 0 IN
    IF IsCx(t) THEN IF f \in {"abs", "norm"} THEN R({<<12, 16>>, <<-12, 16>>, <<0, -20>>, <<-16, -12>>, <<8, 0>>}) ELSE <<q, 0>> ELSE q
Nice(st, f) ==
    LET t == Pick(<<"f", "d", "y", "z">>) IN
    <<"a", t, [i \in 1..R(1..4) |-> IF f \in {"floor", "real", "imag"} THEN (IF f = "floor" /\ IsCx(t) THEN <<0, 0>> ELSE CNum(t))
                                     ELSE IF f \in {"abs", "norm"} /\ ~IsCx(t) THEN CNum("d") ELSE NiceNum(f, t)]>>
CFun(st) == Pick(<<"floor", "floor", "real", "imag", "abs", "abs", "norm", "norm", "arg", "sin", "cos", "tan", "atan", "exp", "log", "sqrt", "sqrt">>)
RECURSIVE CTree(_, _)
CTree(st, d) ==
    LET k == R(1..9)
        t == Pick(CTypes)
    IN  IF d = 0 \/ k <= 3 THEN <<t, CNum(t)>>
        ELSE IF k <= 5 THEN Str(CText(st))
        ELSE IF k = 6 THEN CDense(st)
        ELSE IF k = 7 THEN Nil
        ELSE IF k = 8 THEN <<"v", [i \in 1..R(0..3) |-> CTree(st, d - 1)]>>
        ELSE <<"m", <<<<Str(<<97>>), CTree(st, d - 1)>>, <<<<"i", 2>>, CTree(st, d - 1)>>>>>>
NiceLit(st, f) ==
    LET a == Nice(st, f)
        e == [i \in 1..Len(a[3]) |-> <<a[2], a[3][i]>>]
        k == R(1..6)
    IN  IF k = 1 THEN e[1]
        ELSE IF k = 2 THEN <<"v", e>>
        ELSE IF k = 3 THEN <<"v", <<a, e[1]>>>>
        ELSE IF k = 4 THEN <<"m", <<<<Str(<<97>>), a>>, <<Str(<<98>>), e[1]>>>>>>
        ELSE IF k = 5 THEN <<"w", <<"a", a[2], a[3] \o a[3] \o a[3]>>, IF Len(a[3]) = 2 THEN <<2, 2>> ELSE Pick(<<<<Len(a[3]), 2>>, <<1, Len(a[3])>>, <<Len(a[3])>>>>), R(0..Len(a[3]))>>
        ELSE a
(* numbers whose functions are in the tables *)
TabNum(f, t) ==
    IF IsCx(t) THEN LET k == {i \in 1..Len(TabZ) : TabC[f][i] # NoMils} IN TabZ[R(k)]
    ELSE LET k == {i \in 1..Len(TabX) : TabR[f][i] # U} IN TabX[R(k)]
PowNum(t, j) ==
    IF IsCx(t) THEN LET k == {i \in 1..Len(CPowB) : CPowR[i][j] # NoMils} IN CPowB[R(k)]
    ELSE LET k == {i \in 1..Len(PowB) : PowR[i][j] # U} IN PowB[R(k)]
TabLit(st, t, E(_)) ==
    LET k == R(1..5)
        n == R(1..6)
    IN  IF k = 1 THEN <<t, E(0)>>
        ELSE IF k <= 3 THEN <<"a", t, [i \in 1..n |-> E(i)]>>
        ELSE LET o == R(0..2) IN <<"w", <<"a", t, [i \in 1..2 * n + o |-> E(i)]>>, Pick(<<<<2, n>>, <<n, 2>>, <<n>>, <<2, n, 1>>>>), o>>
FnrOp(st, f) == LET t == IF f \in {"abs", "norm"} THEN Pick(<<"y", "z">>) ELSE Pick(<<"f", "d", "y", "z">>) IN <<"fnr", f, <<"L", TabLit(st, t, LAMBDA i : TabNum(f, t))>>>>
PowrOp(st) == LET t == Pick(<<"f", "d", "y", "z">>)
                  j == R(1..Len(IF IsCx(t) THEN CPowE ELSE PowE))
              IN  <<"powr", <<"L", TabLit(st, t, LAMBDA i : PowNum(t, j))>>,
                    IF IsCx(t) THEN (IF CPowE[j][2] = 0 /\ Chance(2) THEN <<"d", CPowE[j][1]>> ELSE <<Pick(<<"y", "z">>), CPowE[j]>>)
                    ELSE IF PowE[j] % 4 = 0 /\ Chance(2) THEN <<"i", PowE[j] \div 4>> ELSE <<Pick(<<"f", "d">>), PowE[j]>>>>
CSrc(st) == LET k == R(1..6)
                y == R(Vars)
            IN  IF k <= 2 THEN <<"L", CTree(st, R(0..2))>> ELSE IF k <= 4 THEN <<"P", y, <<>>>> ELSE <<Pick(<<"P", "A">>), y, RPath(st, st.v[y], 2)>>
BigDigits(st) ==
    LET k == R(1..10)
        m == Pick(<<MaxOf("i", FALSE), MaxOf("i", TRUE), MaxOf("l", FALSE), MaxOf("l", TRUE), MaxOf("f", FALSE), MaxOf("d", FALSE)>>)
    IN  IF k <= 5 THEN m
        ELSE IF k <= 7 THEN [i \in 1..Len(m) |-> IF i = Len(m) THEN R(48..57) ELSE m[i]]
        ELSE [i \in 1..R(1..19) |-> R(48..57)]
CvOp(st, c) ==
    LET t == Pick(CTypes)
        z == R(Vars)
        x == R(Vars)
        f == CFun(st)
    IN  CASE c = "clit" -> <<"set", x, <<>>, <<"L", CTree(st, R(0..3))>>>>
          [] c = "ctext" -> <<"set", x, IF Chance(2) THEN <<>> ELSE RPath(st, st.v[x], 2), <<"L", Str(CText(st))>>>>
          [] c = "cdense" -> <<"set", x, <<>>, <<"L", CDense(st)>>>>
          [] c = "cnice" -> <<"set", x, <<>>, <<"L", NiceLit(st, f)>>>>
          [] c = "cwin" -> <<"set", x, <<>>, <<"L", <<"w", <<"a", "c", CText(st) \o <<49, 50>>>>, <<R(1..2)>>, 0>>>>>>
          [] c = "cast" -> <<"cast", t, CSrc(st), z>>
          [] c = "castt" -> <<"cast", t, <<"L", Str(CText(st))>>, z>>
          [] c = "castf" -> <<"castf", t, CSrc(st), z>>
          [] c = "casti" -> <<"casti", t, x, z>>
          [] c = "fun" -> <<"fun", f, IF Chance(2) THEN <<"L", NiceLit(st, f)>> ELSE CSrc(st), z>>
          [] c = "funi" -> <<"funi", IF Chance(2) THEN R({"real", "imag", "abs", "norm", "floor"}) ELSE f, x, z>>
          [] c = "fnr" -> FnrOp(st, Pick(<<"sin", "cos", "tan", "atan", "exp", "log", "sqrt", "arg", "abs", "norm">>))
          [] c = "powr" -> PowrOp(st)
          [] c = "mate" ->     \* an array of the shape of x for the result
               IF IsRef(st.v[x]) /\ Size(st.h, st.v[x]) > 0
               THEN LET u == Pick(<<"f", "d", "y", "z">>) IN
                    <<"set", z, <<>>, <<"L", <<"w", <<"a", u, [i \in 1..Size(st.h, st.v[x]) + 1 |-> CNum(u)]>>, ShapeOf(st.h, st.v[x]), R(0..1)>>>>>>
               ELSE <<"set", x, <<>>, <<"L", Nice(st, f)>>>>
          [] c = "big" -> <<"big", Pick(<<<<>>, <<32>>, <<>>>>) \o Pick(<<<<>>, <<45>>, <<45>>, <<43>>>>) \o Pick(<<<<>>, <<>>, <<48, 48>>>>) \o BigDigits(st) \o Pick(<<<<>>, <<46>>, <<120>>>>),
                           Pick(<<<<"l">>, <<"i">>, <<"d">>, <<"f">>, <<"l", "d", "l">>, <<"i", "l", "d", "i">>, <<"d", "l">>, <<"l", "i">>, <<"f", "d", "l">>, <<"y", "l">>, <<"l", "z", "l">>,
                                  <<"i", "f", "i">>, <<"l", "J">>, <<"i", "J", "d">>, <<"z", "d">>, <<"l", "J", "i">>>>)>>
          [] OTHER -> GenOp(st, c)
CvCats == <<"clit", "clit", "ctext", "ctext", "cdense", "cnice", "cnice", "cwin", "cast", "cast", "cast", "castt", "castt", "castt", "castf", "castf", "castf", "casti",
            "fnr", "fnr", "powr", "fun", "fun", "fun", "fun", "funi", "funi", "mate", "mate", "big", "big", "share", "view", "subv", "store", "put", "copy">>
CvKeep(q) == q.a.ok = "ok" \/ (q.a.ok = "throw" /\ Chance(3))
CvNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {CvOp(s, Pick(CvCats))} :
       \E q \in {CvStep(s, op)} :
         IF ~CvKeep(q) \/ ~InBounds(q.t)
         THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every short text over a small alphabet, to every type; every number     *)
(***************************************************************************)
CONSTANTS MaxN, Letters
RECURSIVE CvRun(_, _, _)
CvRun(st, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET q == CvStep(st, Head(ops)) IN
         IF q.a.ok = "skip" THEN CvRun(st, Tail(ops), acc)
         ELSE CvRun(q.t, Tail(ops), Append(acc, <<Head(ops), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
AllCasts == [i \in 1..Len(CTypes) |-> <<"cast", CTypes[i], <<"P", 1, <<>>>>, 2>>]
FunSeqAll == <<"floor", "real", "imag", "abs", "norm", "arg", "sin", "cos", "tan", "atan", "exp", "log", "sqrt">>
AllFuns == [i \in 1..Len(FunSeqAll) |-> <<"fun", FunSeqAll[i], <<"P", 1, <<>>>>, 2>>]
AllMil == [i \in 1..Len(FunSeqAll) |-> <<"fnr", FunSeqAll[i], <<"P", 1, <<>>>>>>]
AllPow == [i \in 1..Len(PowE) |-> <<"powr", <<"P", 1, <<>>>>, <<"d", PowE[i]>>>>] \o [i \in 1..Len(CPowE) |-> <<"powr", <<"P", 1, <<>>>>, <<"z", CPowE[i]>>>>]
TabInit == /\ s = Empty(NV) /\ hist = <<>>
           /\ \/ \E t \in {"f", "d"} : \E i \in 1..Len(TabX) : last = <<t, TabX[i]>>
              \/ \E t \in {"y", "z"} : \E i \in 1..Len(TabZ) : last = <<t, TabZ[i]>>
              \/ \E t \in {"f", "d"} : \E i \in 1..Len(PowB) : last = <<t, PowB[i]>>
              \/ \E t \in {"y", "z"} : \E i \in 1..Len(CPowB) : last = <<t, CPowB[i]>>
TextInit == s = Empty(NV) /\ hist = <<>> /\ last \in UNION {[1..n -> Letters] : n \in 0..MaxN}
NumInit == /\ s = Empty(NV) /\ hist = <<>>
           /\ \/ \E t \in {"c", "i", "l", "f", "d"} : \E q \in (IF t = "c" THEN -128..127 ELSE -130..130) : last = <<t, q>>
              \/ \E t \in {"y", "z"} : \E re \in {-16, -8, -4, 0, 1, 4, 12} : \E im \in {-16, 0, 2, 4, 9} : last = <<t, <<re, im>>>>
Show(p) == hist' = <<Len(p)>> /\ PrintT("T" \o ToJson(p)) /\ UNCHANGED <<s, last>>
CvTexts == hist = <<>> /\ \E p \in {CvRun(s, <<<<"set", 1, <<>>, <<"L", Str(last)>>>>>> \o AllCasts, <<>>)} : Show(p)
CvTabs == hist = <<>> /\ \E p \in {CvRun(s, <<<<"set", 1, <<>>, <<"L", last>>>>>> \o AllMil \o AllPow, <<>>)} : Show(p)
CvNums == hist = <<>> /\ \E p \in {CvRun(s, <<<<"set", 1, <<>>, <<"L", last>>>>>> \o AllCasts \o AllFuns, <<>>)} : Show(p)
=============================================================================
