------------------------------- MODULE RangeGen ------------------------------
EXTENDS Range, StoreGen
CONSTANT Big
RTypes == <<"i", "i", "l", "f", "d", "c">>
RNum(t) == IF t = "c" THEN R({0, 1, 5, 97, 98, 101, 126, 127, -128, -100, -1}) ELSE IF IsInt(t) THEN R(-6..9) ELSE R(-20..30)
RgLim(st, t) ==
    LET k == R(1..6)
        y == R(Vars)
    IN  IF k <= 3 THEN <<"L", <<t, RNum(t)>>>>
        ELSE <<Pick(<<"P", "A">>), y, IF Chance(3) THEN <<>> ELSE RPath(st, st.v[y], 2)>>
TypeAt(st, src) ==   \* the type of what an operand denotes, when it is a number
    LET q == Operand(st, src) IN
    IF q.ok # "ok" THEN "n" ELSE LET x == Get(q.s, q.r) IN IF IsScalar(x) /\ ~IsCx(x[1]) THEN x[1] ELSE "n"
RgStepSrc(st, t) == IF Chance(4) THEN <<"P", R(Vars), <<>>>> ELSE <<"L", Pick(<<<<"i", 1>>, <<"i", 2>>, <<"i", 3>>, <<"i", 1>>, <<"d", 4>>, <<"f", 2>>, <<"d", 6>>, <<"d", 1>>, <<"l", 2>>, <<"c", 1>>, <<"i", -1>>, <<"i", 0>>>>)>>
RgOp(st, c) ==
    LET z == R(Vars)
        n == R(0..5)
    IN  CASE c = "range" -> LET lo == RgLim(st, Pick(RTypes))
                                t == TypeAt(st, lo)
                                hi == IF t # "n" /\ ~Chance(4) THEN <<"L", <<t, RNum(t)>>>> ELSE RgLim(st, "i")
                                st1 == RgStepSrc(st, t)
                                flip == t # "n" /\ Chance(3) /\ TypeAt(st, hi) = t
                            IN  <<"range", Pick(<<"range", "irange">>), IF flip THEN hi ELSE lo, IF flip THEN lo ELSE hi, st1, z>>
          [] c = "range1" -> <<"range1", Pick(<<"range", "irange">>), RgLim(st, Pick(RTypes)), z>>
          [] c = "ind" -> <<"ind", R(-5..5), [i \in 1..n |-> Pick(<<"~", "=~", "++", "--", "p++", "p--", "+3">>)]>>
          [] c = "ctorn" -> <<"ctorn", n, RTree(st, R(0..1)), z>>
          [] c = "ctorl" -> <<"ctorl", IF Chance(2) THEN LET t == Pick(RTypes) IN [i \in 1..n |-> <<t, RNum(t)>>]
                                       ELSE [i \in 1..n |-> RTree(st, R(0..1))], z>>
          [] c = "ctors" -> <<"ctors", [i \in 1..n |-> Str([j \in 1..R(0..3) |-> R({97, 98, 44, 32, -61})])], R(0..1), z>>
          [] c = "ctori" -> <<"ctori", [i \in 1..n |-> R(-9..9)], z>>
          [] c = "ctorc" -> <<"ctorc", [i \in 1..n |-> R({97, 0, 98, -1})], z>>
          [] c = "ctorw" -> <<Pick(<<"ctorw", "mkview">>), Pick(<<<<1>>, <<2>>, <<3, 2>>, <<2, 3>>, <<1, 1>>, <<2, 2, 2>>, <<1, 3, 1>>, <<5>>>>),
                              IF Chance(5) THEN Nil ELSE LET t == Pick(<<"i", "l", "f", "d", "c", "y">>) IN <<t, IF t = "y" THEN <<4, -4>> ELSE RNum(t)>>, z, R(0..1)>>
          [] OTHER -> GenOp(st, c)
RgCats == <<"range", "range", "range", "range", "range", "range1", "range1", "ind", "ctorn", "ctorn", "ctorl", "ctorl", "ctors", "ctori", "ctorc", "ctorw", "ctorw",
            "lit", "big", "rdense", "put", "share", "view", "push", "pop", "shape", "copy", "tree">>
RgKeep(q) == q.a.ok = "ok" \/ (q.a.ok = "throw" /\ Chance(4))
RgNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {RgOp(s, Pick(RgCats))} :
       \E q \in {RgStep(s, op)} :
         IF ~RgKeep(q) \/ ~InBounds(q.t)
         THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(* every pair of limits and step of a small set, for every type *)
RECURSIVE RgRun(_, _, _)
RgRun(st, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET q == RgStep(st, Head(ops)) IN
         IF q.a.ok = "skip" THEN RgRun(st, Tail(ops), acc)
         ELSE RgRun(q.t, Tail(ops), Append(acc, <<Head(ops), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
Nums(t) == IF t = "c" THEN {-128, -1, 0, 1, 2, 65, 126, 127} ELSE IF IsInt(t) THEN -Big..Big ELSE -2 * Big..2 * Big
StepSet(t) == {<<t, x>> : x \in {y \in Nums(t) : y > 0}} \cup {<<"i", 1>>, <<"d", 4>>}
Lit(x) == <<"L", x>>
AllRanges(t, lo, hi) ==
    LET qs == SortSeq(<<1, 2, 3, 4, 5, 6, 7, 8>>, <)
    IN  <<<<"range1", "range", Lit(<<t, hi>>), 1>>, <<"range1", "irange", Lit(<<t, hi>>), 2>>>>
        \o [i \in 1..8 |-> <<"range", IF i % 2 = 0 THEN "range" ELSE "irange", Lit(<<t, lo>>), Lit(<<t, hi>>), Lit(<<t, (i + 1) \div 2>>), 1 + (i % 2)>>]
        \o <<<<"range", "range", Lit(<<t, lo>>), Lit(<<t, hi>>), Lit(<<"i", 1>>), 1>>, <<"range", "irange", Lit(<<t, lo>>), Lit(<<t, hi>>), Lit(<<"d", 8>>), 1>>>>
RgInit == s = Empty(NV) /\ hist = <<>> /\ \E t \in {"i", "l", "f", "d", "c"} : \E lo \in Nums(t), hi \in Nums(t) : last = <<t, lo, hi>>
RgAll == /\ hist = <<>>
         /\ \E p \in {RgRun(s, AllRanges(last[1], last[2], last[3]), <<>>)} : hist' = <<Len(p)>> /\ PrintT("T" \o ToJson(p))
         /\ UNCHANGED <<s, last>>
(* the model against the definition: the right number of steps, all inside the limits *)
Defined == LET t == last[1]
               n(incl) == LET lo == last[2] d == last[3] - last[2] IN IF d < 0 \/ (d = 0 /\ ~incl) THEN 0 ELSE IF incl THEN d \div 2 + 1 ELSE (d - 1) \div 2 + 1
           IN  t = "c" \/ \A incl \in {TRUE, FALSE} :
                  LET q == RangeOf(s, <<t, last[2]>>, <<t, last[3]>>, <<t, 2>>, incl) IN
                  q.ok = "ok" => /\ Len(q.x) = n(incl)
                                 /\ \A i \in 1..Len(q.x) : q.x[i] = last[2] + 2 * (i - 1)
=============================================================================
