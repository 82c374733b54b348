------------------------------ MODULE PrintGen ------------------------------
(***************************************************************************)
(* Generation of things to print                                           *)
(***************************************************************************)
EXTENDS Print, StoreGen
CONSTANT MaxN

WInt(st) == Pick(<<0, 1, -1, 7, 10, 99, -128, 65536, 9999999, -12345678>>)
WReal(st) == Pick(<<1, 2, 3, -1, -6, 4, 0, 10, 3999, -400, 39999, 40001, 49383, -49381, 399999, 399998, 3999998, 3999999, 4000000, -4000001, 4938271, 49382716, 40000000, 4000020, 4000030, 4 * R(-12000000..12000000), R(30000..50000)>>)
WFloat(st) == Pick(<<1, 2, 3, -1, -6, 4, 0, 10, 3999, -400, 39999, 40001, 49383, -49381, 399999, 399998, 3999998, 3999999, 4000000, -4000001, 4938271, 4000020, 4000030, R(-16000000..16000000), R(30000..50000)>>)
WChar(st) == Pick(<<97, 98, 32, 34, 92, 39, 10, 9, 0, -61, -87, 127>>)
WVal(st, t) == CASE t = "c" -> WChar(st) [] t \in {"i", "l"} -> WInt(st) [] t = "f" -> WFloat(st) [] t = "d" -> WReal(st)
                 [] t = "y" -> <<WFloat(st), WFloat(st)>> [] OTHER -> <<WReal(st), WReal(st)>>
WType(st) == Pick(<<"c", "i", "l", "f", "d", "d", "y", "z">>)
WStr(st) == Str([i \in 1..Pick(<<0, 1, 1, 2, 3, 6, 12>>) |-> WChar(st)])
WDims(st) == Pick(<<<<1>>, <<3>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<1, 2, 3>>, <<2, 1, 1>>, <<2, 3, 1>>, <<2, 1, 2, 2>>, <<1, 1, 1, 1>>, <<2, 2, 1, 3>>>>)
RECURSIVE WLit(_, _)
WLit(st, d) ==
    LET k == R(1..18) IN
    IF d = 0 \/ k <= 3 THEN (IF Chance(5) THEN Nil ELSE LET t == WType(st) IN <<t, WVal(st, t)>>)
    ELSE IF k <= 5 THEN WStr(st)
    ELSE IF k <= 8 THEN LET t == WType(st) IN <<"a", t, [i \in 1..Pick(<<0, 1, 1, 2, 3, 5>>) |-> WVal(st, t)]>>
    ELSE IF k <= 11 THEN LET t == WType(st)
                             e == WDims(st)
                             o == R({0, 0, 1, 2})
                         IN  <<"w", <<"a", t, [i \in 1..Prod(e) + o + R({0, 1}) |-> WVal(st, t)]>>, e, o>>
    ELSE IF k = 12 THEN LET e == WDims(st) IN IF Prod(e) > 4 THEN WStr(st) ELSE <<"w", <<"v", [i \in 1..Prod(e) + 1 |-> WLit(st, d - 1)]>>, e, R({0, 1})>>
    ELSE IF k <= 15 THEN <<"v", [i \in 1..Pick(<<0, 1, 1, 2, 3>>) |-> WLit(st, d - 1)]>>
    ELSE <<"m", [i \in 1..Pick(<<0, 1, 1, 2, 3>>) |-> <<IF Chance(4) THEN LET t == Pick(<<"i", "c", "d">>) IN <<t, IF t = "d" THEN 4 * i + 1 ELSE 10 * i>> ELSE Str([j \in 1..i - 1 |-> WChar(st)] \o <<96 + i>>), WLit(st, d - 1)>>]>>
WSrc(st) == LET x == R(Vars) IN
            IF Chance(3) THEN <<"L", WLit(st, Pick(<<0, 1, 2, 3, 4>>))>>
            ELSE IF Chance(3) THEN <<Pick(<<"P", "A", "C">>), x, RPath(st, st.v[x], 2)>>
            ELSE <<"P", x, <<>>>>
WOp(st, c) ==
    LET x == R(Vars) IN
    CASE c = "wlit" -> <<"set", x, <<>>, <<"L", WLit(st, Pick(<<1, 2, 3, 3, 4>>))>>>>
      [] c = "wput" -> <<"set", x, RPath(st, st.v[x], 2), <<"L", WLit(st, 1)>>>>
      [] c \in PrintOps -> <<c, WSrc(st)>>
      [] OTHER -> GenOp(st, c)
WCats == <<"wlit", "wlit", "wlit", "wput", "wput", "pr", "pr", "pr", "pr", "pr", "ty", "er", "er", "tm", "iniw", "share", "view", "offs", "subv", "push", "copy", "nil", "lit">>
WStep(st, op) ==
    IF op[1] \in PrintOps
    THEN LET a == PApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
         ELSE IF ~Acyclic(a.s.h) THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE Step(st, op)
WNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {WOp(s, Pick(WCats))} :
       \E q \in {WStep(s, op)} :
         IF q.a.ok = "skip" \/ ~InBounds(q.t) THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every type in every shape up to a size, alone and inside arrays and     *)
(* maps; and the numbers around every power of ten                         *)
(***************************************************************************)
Plain1(t, i) == CASE t = "c" -> 96 + (i % 20) [] t \in {"i", "l"} -> ((i * 7) % 23) - 5 [] t \in {"f", "d"} -> ((i * 5) % 37) - 9 [] OTHER -> <<((i * 5) % 37) - 9, i % 3>>
Grid == {<<a>> : a \in 1..3 * MaxN} \cup {<<a, b>> : a \in 1..MaxN, b \in 1..MaxN} \cup {<<a, b, c>> : a \in 1..2, b \in 1..3, c \in 1..3} \cup {<<a, b, c, d>> : a \in 1..2, b \in 1..2, c \in 1..2, d \in 1..2}
Near == {<<"n", p, d>> : p \in 0..7, d \in -9..9}
WThings == {<<t, d, o>> : t \in {"c", "i", "l", "f", "d", "y", "z"}, d \in Grid, o \in -1..1} \cup Near
WInit == last \in WThings /\ s = Empty(NV) /\ hist = <<>>
Show(l) == <<"pr", <<"L", l>>>>
Around(p, d) == LET x == (4 * Ten(p)) \div (IF d % 2 = 0 THEN 1 ELSE 2) + d IN
    <<Show(<<"d", x>>), Show(<<"d", -x>>), Show(<<"a", "d", <<x, -x, 3 * x>>>>), Show(<<"z", <<x, -x>>>>)>>
    \o (IF x < 16000000 THEN <<Show(<<"f", x>>), Show(<<"y", <<x, x>>>>)>> ELSE <<>>)
WOpsOf(q) ==
    IF q[1] = "n" THEN Around(q[2], q[3])
    ELSE LET n == Prod(q[2])
             w == IF q[3] < 0 THEN <<"a", q[1], [i \in 1..n |-> Plain1(q[1], i)]>>
                  ELSE <<"w", <<"a", q[1], [i \in 1..n + q[3] |-> Plain1(q[1], i)]>>, q[2], q[3]>>
         IN  <<Show(w), Show(<<"v", <<w, <<"i", 1>>, w>>>>), Show(<<"m", <<<<Str(<<97>>), w>>, <<Str(<<98>>), <<"v", <<w>>>>>>>>>>), <<"ty", <<"L", w>>>>, <<"er", <<"L", w>>>>, <<"tm", <<"L", w>>>>,
               <<"set", 1, <<>>, <<"L", w>>>>, <<"pr", <<"P", 1, <<I(n - 1)>>>>>>, <<"ty", <<"P", 1, <<I(0)>>>>>>, <<"iniw", <<"L", <<"v", <<w, w>>>>>>>>, <<"er", <<"P", 1, <<I(n - 1)>>>>>>>>
RECURSIVE WRun(_, _, _)
WRun(st, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == WStep(st, Head(os)) IN
         IF q.a.ok = "skip" THEN WRun(st, Tail(os), acc)
         ELSE WRun(q.t, Tail(os), Append(acc, <<Head(os), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
WAll == /\ last # <<0>>
        /\ hist' = WRun(Empty(NV), WOpsOf(last), <<>>)
        /\ last' = <<0>> /\ s' = s
        /\ PrintT("T" \o ToJson(hist'))
(* in the model: six digits are within half a unit of the sixth *)
=============================================================================
