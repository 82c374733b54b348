------------------------------- MODULE PlotGen -------------------------------
(***************************************************************************)
(* Generation of things to plot                                            *)
(***************************************************************************)
EXTENDS Plot, StoreGen
CONSTANT MaxN
VARIABLE f

Cmd(st) == Str(Pick(<<B("plot '-' with lines"), B("set title \"x y\""), B("  unset key"), <<>>, <<97>>, <<97, 10, 10, 98>>, B("e"), B("splot 1"), <<35, -61, -87>>,
                      [i \in 1..R(10..200) |-> 97 + (i % 26)]>>))
PlVal(t) == IF IsInt(t) THEN (IF t = "c" THEN R({-7, 0, 1, 5, 100}) ELSE R({-7, 0, 1, 5, 100, 12345, 1234567, -90000001, 10000000})) ELSE R({-10, -4, -1, 0, 1, 2, 3, 4, 6, 40, 4000, 399})
PType(st) == Pick(<<"i", "l", "f", "d", "d">>)
PDense(st, t, n) == <<"a", t, [i \in 1..n |-> PlVal(t)]>>
PDims(st) == Pick(<<<<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 9>>, <<9, 2>>, <<4>>, <<2>>, IF Chance(3) THEN <<2, 2, 2>> ELSE <<2, 2>>>>)
PWin(st) == LET t == PType(st)
                d == PDims(st)
                o == R({0, 0, 1, 3})
            IN  <<"w", PDense(st, t, Prod(d) + o + R({0, 2})), d, o>>
Odd(st) == Pick(<<Nil, <<"m", <<<<Str(<<97>>), <<"i", 1>>>>>>>>, <<"y", <<4, 4>>>>, <<"v", <<<<"i", 1>>>>>>, <<"a", "y", <<<<4, 0>>>>>>, <<"v", <<>>>>>>)
PItem(st) == LET k == R(1..30) IN
             IF k <= 10 THEN Cmd(st) ELSE IF k <= 17 THEN PDense(st, PType(st), Pick(<<0, 1, 2, 3, 5, IF Chance(5) THEN 70 ELSE 4>>)) ELSE IF k <= 27 THEN PWin(st)
             ELSE IF k <= 29 THEN LET t == PType(st) IN <<t, PlVal(t)>> ELSE Odd(st)
PLit(st) == <<"v", [i \in 1..Pick(<<0, 1, 2, 2, 3, 4, 6>>) |-> PItem(st)]>>
Names == {<<>>, B("out.eps"), B("a b"), <<97, 34, 98>>}
XOp(st, ff, c) ==
    LET x == R(Vars)
        z == R(Vars)
        k == IF ff = <<>> THEN 1 ELSE R(1..Len(ff))
        arrs == {v \in Vars : IsRef(st.v[v]) /\ ~IsMap(st.h, st.v[v]) /\ AType(st.h, st.v[v][2]) = "v"}
    IN  CASE c = "pnew" -> <<"pnew">>
          [] c = "pwrite" -> <<"pwrite", k, IF arrs = {} \/ Chance(12) THEN x ELSE R(arrs), IF Chance(3) THEN R(Names) ELSE <<>>>>
          [] c = "pread" -> <<"pread", k>>
          [] c = "pend" -> <<"pend">>
          [] c = "plit" -> <<"set", x, <<>>, <<"L", PLit(st)>>>>
          [] c = "pitem" -> IF arrs = {} THEN <<"set", x, <<>>, <<"L", PLit(st)>>>> ELSE <<"push", R(arrs), <<>>, <<"L", PItem(st)>>>>
          [] c = "ptwice" -> IF arrs = {} THEN <<"set", x, <<>>, <<"L", PLit(st)>>>> ELSE <<"push", R(arrs), <<>>, <<"P", x, <<>>>>>>
          [] OTHER -> GenOp(st, c)
XCats == <<"pnew", "pwrite", "pwrite", "pwrite", "pwrite", "pread", "pend", "plit", "plit", "pitem", "pitem", "ptwice", "view", "share", "get", "put", "nil">>
XStepOf(st, ff, op) ==
    IF op[1] \in POps
    THEN LET a == PApply(st, ff, op) IN
         IF a.ok = "skip" THEN [ok |-> "skip", s |-> st, f |-> ff, r |-> <<>>]
         ELSE [ok |-> a.ok, s |-> Canon(a.s), f |-> a.f, r |-> a.r]
    ELSE LET a == Step(st, op) IN [ok |-> a.a.ok, s |-> a.t, f |-> ff, r |-> ResOf(a.a)]
XStart == s = Empty(NV) /\ hist = <<>> /\ last = <<>> /\ f = F0
(* what was sent shows at the end *)
XNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {IF hist = <<>> THEN <<"pnew">> ELSE IF Len(hist) = Depth - 1 /\ f # <<>> THEN <<"pend">> ELSE XOp(s, f, Pick(XCats))} :
       \E q \in {XStepOf(s, f, op)} :
         IF q.ok = "skip" \/ ~InBounds(q.s) THEN UNCHANGED <<s, f, hist, last>>
         ELSE /\ s' = q.s /\ f' = q.f /\ last' = op
              /\ hist' = Append(hist, <<op, q.ok, q.r, Obs(q.s), FALSE>>)
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every type and shape up to a size, alone and between other things       *)
(***************************************************************************)
Ramp(t, n) == [i \in 1..n |-> IF IsInt(t) THEN ((i * 7) % 23) - 5 ELSE ((i * 5) % 37) - 9]
Shapes == {<<a>> : a \in 1..3 * MaxN} \cup {<<a, b>> : a \in 1..MaxN, b \in 1..MaxN} \cup {<<1, 40>>, <<40, 1>>, <<17, 3>>, <<2, 2, 2>>, <<1, 1, 1>>}
Things == {<<t, d, o>> : t \in {"i", "l", "f", "d"}, d \in Shapes, o \in -1..1}
ThingLit(q) == IF q[3] < 0 THEN <<"a", q[1], Ramp(q[1], Prod(q[2]))>> ELSE <<"w", <<"a", q[1], Ramp(q[1], Prod(q[2]) + q[3])>>, q[2], q[3]>>
ThingOps(q) ==
    LET w == ThingLit(q) IN
    <<<<"pnew">>, <<"pnew">>, <<"set", 1, <<>>, <<"L", <<"v", <<w>>>>>>>>, <<"pwrite", 1, 1, <<>>>>,
      <<"set", 2, <<>>, <<"L", <<"v", <<Str(B("plot '-'")), w, ThingLit(<<q[1], q[2], 0>>), Str(B("replot")), w, <<"d", 6>>>>>>>>>>, <<"pwrite", 2, 2, B("out")>>,
      <<"set", 3, <<>>, <<"L", <<"v", <<w, Nil, w>>>>>>>>, <<"pwrite", 1, 3, B("o p")>>, <<"pread", 1>>, <<"pwrite", 1, 1, <<>>>>, <<"pend">>>>
XInit == last \in Things /\ s = Empty(NV) /\ hist = <<>> /\ f = F0
RECURSIVE XRun(_, _, _, _)
XRun(st, ff, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == XStepOf(st, ff, Head(os)) IN
         IF q.ok = "skip" THEN XRun(st, ff, Tail(os), acc)
         ELSE XRun(q.s, q.f, Tail(os), Append(acc, <<Head(os), q.ok, q.r, Obs(q.s), FALSE>>))
XAll == /\ last # <<0>>
        /\ hist' = XRun(Empty(NV), F0, ThingOps(last), <<>>)
        /\ last' = <<0>> /\ s' = s /\ f' = f
        /\ PrintT("T" \o ToJson(hist'))
=============================================================================
