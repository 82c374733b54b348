------------------------------ MODULE FetchGen ------------------------------
(***************************************************************************)
(* Generation of transfers                                                 *)
(***************************************************************************)
EXTENDS Fetch, StoreGen
CONSTANT MaxN
VARIABLE f

(* the library hands data over in blocks of 16384 *)
Count(st) == Pick(<<R(0..300), 16383, 16384, 16385, 32767, 32768, 32769, R(300..70000), 65536 + R(-1..1), 1, 255, 256, IF Chance(6) THEN R(100000..400000) ELSE 4096>>)
Content(st) == [i \in 1..Pick(<<0, 1, 2, 3, 5, 8, 40, 100>>) |-> Pick(<<97, 98, 0, 0, -1, -128, 127, 10, 13, 26, 37, 60, 32>>)]
How(st) == Pick(<<"file", "file", "file", "http", "http", "part", "bad">>)
XOp(st, ff, c) ==
    LET k == R(1..3)
        i == R(1..2)
        x == R(Vars)
    IN  CASE c = "uput" -> <<"uput", k, Content(st)>>
          [] c = "uputn" -> <<"uputn", k, Count(st), Pick(<<1, 3, 7, 37, 251, 0>>), R(0..255)>>
          [] c = "udel" -> <<"udel", k>>
          [] c = "unew" -> <<"unew", i>>
          [] c = "uend" -> <<"uend">>
          [] c = "uget" -> LET m == {q \in 1..3 : ff.at[q] # None /\ LenAt(ff.at[q]) <= 120} IN
                           <<"uget", IF m = {} \/ Chance(4) THEN k ELSE R(m), i, x, How(st)>>
          [] c = "ubig" -> LET m == {q \in 1..3 : ff.at[q] # None} IN <<"ubig", IF m = {} THEN k ELSE R(m), i, 0, Pick(<<"file", "http">>)>>
          [] OTHER -> GenOp(st, c)
XCats == <<"uput", "uput", "uput", "uputn", "uputn", "udel", "unew", "unew", "uend", "uget", "uget", "uget", "uget", "uget", "uget", "ubig", "ubig", "ubig", "share", "push", "put", "copy", "get">>
XStepOf(st, ff, op) ==
    IF op[1] \in FetchOps
    THEN LET a == FApply(st, ff, op) IN
         IF a.ok = "skip" THEN [ok |-> "skip", s |-> st, f |-> ff, r |-> <<>>]
         ELSE [ok |-> a.ok, s |-> Canon(a.s), f |-> a.f, r |-> a.r]
    ELSE LET a == Step(st, op) IN [ok |-> a.a.ok, s |-> a.t, f |-> ff, r |-> ResOf(a.a)]
XStart == s = Empty(NV) /\ hist = <<>> /\ last = <<>> /\ f = F0
XNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {XOp(s, f, Pick(XCats))} :
       \E q \in {XStepOf(s, f, op)} :
         IF q.ok = "skip" \/ ~InBounds(q.s) THEN UNCHANGED <<s, f, hist, last>>
         ELSE /\ s' = q.s /\ f' = q.f /\ last' = op
              /\ hist' = Append(hist, <<op, q.ok, q.r, Obs(q.s), FALSE>>)
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every number of bytes near the sizes where blocks end, and every value  *)
(* of a byte, alone and in company                                         *)
(***************************************************************************)
Sizes == 0..(4 * MaxN) \cup UNION {{m - 1, m, m + 1} : m \in {1024 * j : j \in 1..(8 * MaxN)}}
XInit == last \in {<<n>> : n \in Sizes} /\ s = Empty(NV) /\ hist = <<>> /\ f = F0
RECURSIVE XRun(_, _, _, _)
XRun(st, ff, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == XStepOf(st, ff, Head(os)) IN
         IF q.ok = "skip" THEN XRun(st, ff, Tail(os), acc)
         ELSE XRun(q.s, q.f, Tail(os), Append(acc, <<Head(os), q.ok, q.r, Obs(q.s), FALSE>>))
Little(n) == <<(n % 256) - 128, ((n * 3) % 256) - 128, (n % 256) - 128>>
XAllOps(n) == <<<<"unew", 1>>, <<"unew", 2>>, <<"uputn", 1, n, 7, n % 256>>, <<"uput", 2, Little(n)>>, <<"ubig", 1, 1, 0, "file">>, <<"uget", 2, 1, 1, "file">>,
                <<"ubig", 1, 1, 0, "http">>, <<"uget", 3, 1, 1, "file">>, <<"uget", 1, 1, 2, "part">>, <<"ubig", 1, 2, 0, "file">>, <<"uget", 2, 1, 2, "http">>, <<"uget", 2, 2, 1, "file">>>>
XAll == /\ last # <<-5>>
        /\ hist' = XRun(Empty(NV), F0, XAllOps(last[1]), <<>>)
        /\ last' = <<-5>> /\ s' = s /\ f' = f
        /\ PrintT("T" \o ToJson(hist'))
=============================================================================
