------------------------------ MODULE MediaGen ------------------------------
(***************************************************************************)
(* Generation of histories of audio files and graphs                       *)
(***************************************************************************)
EXTENDS Media, StoreGen
CONSTANT MaxN
VARIABLE f

MInit == s = Empty(NV + 2) /\ hist = <<>> /\ last = <<>> /\ f = F0
Rate(st) == Pick(<<8000, 16000, 44100, 48000, 1, 96000, 11025, 123456>>)
QSeq(t, n) == [i \in 1..n |-> IF IsInt(t) THEN R(-1..0) ELSE R(-4..3)]
ALit(st) == LET t == Pick(<<"f", "f", "f", "d", "d", "i", "l">>) IN
            IF Chance(8) THEN <<t, QSeq(t, 1)[1]>>
            ELSE <<"a", t, QSeq(t, Pick(<<0, 1, 2, 3, 4, 6, 6, 8, 12, 24, IF Chance(4) THEN 200 ELSE 5>>))>>
Dims(n) == {d \in {<<a, b>> : a \in 1..6, b \in 0..8} : d[1] * d[2] <= n}
There(ff) == {i \in 1..2 : ff.au[i]}
Live(ff) == {k \in 1..2 : ff.fl[k].is = "audio"}
XOp(st, ff, c) ==
    LET x == R(Vars)
        z == R(Vars)
        i == IF There(ff) = {} THEN 1 ELSE R(There(ff))
        k == R(1..2)
        j == IF Live(ff) = {} \/ Chance(8) THEN k ELSE R(Live(ff))
        g == IF ff.gr = <<>> THEN 1 ELSE R(1..Len(ff.gr))
        nv == IF ff.gr = <<>> THEN 0 ELSE ff.gr[g].n
        maps == {v \in Vars : IsRef(st.v[v]) /\ IsMap(st.h, st.v[v])}
        n == Size(st.h, st.v[x])
        ds == Dims(n)
        pn == Pick(<<0, 1, 2, 3, 5, 8, 17, 64, IF Chance(4) THEN R({1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097}) ELSE 7>>)
        pch == Pick(<<0, 0, 1, 2, 2, 3, 5, 8>>)
    IN  CASE c = "amap" -> <<"set", x, <<K(<<"s", B("rate")>>)>>, <<"L", IF Chance(15) THEN Pick(<<<<"i", 0>>, <<"i", -5>>, Nil>>) ELSE IF Chance(6) THEN <<"l", Rate(st)>> ELSE <<"i", Rate(st)>>>>>>
          [] c = "anil" -> <<"set", x, <<>>, <<"L", <<"m", <<<<<<"s", B("rate")>>, <<"i", Rate(st)>>>>, <<<<"s", B("b")>>, <<"i", 1>>>>>>>>>>>>
          [] c = "anew" -> <<"anew", k, IF maps = {} \/ Chance(8) THEN 0 ELSE R(maps)>>
          [] c = "awrite" -> <<"awrite", i, k, x>>
          [] c = "apat" -> <<"apat", i, k, Pick(<<"f", "d">>), pch, IF pch > 2 /\ pn > 600 THEN 600 ELSE pn, R(1..25000), R(0..65535)>>
          [] c = "aread" -> <<"aread", R(1..2), j>>
          [] c = "aload" -> <<"aload", i, j, z>>
          [] c = "agarb" -> <<"agarb", k>>
          [] c = "alost" -> <<"alost", i>>
          [] c = "alit" -> <<"set", x, <<>>, <<"L", ALit(st)>>>>
          [] c = "aview" -> IF n = 0 THEN <<"set", x, <<>>, <<"L", ALit(st)>>>>
                            ELSE IF Chance(3) THEN <<"view", x, <<>>, z, <<R(0..(n - 1))>>, R(0..1)>>
                            ELSE LET d == R(ds) IN <<"view", x, <<>>, z, d, IF Chance(3) THEN R(0..(n - d[1] * d[2])) ELSE 0>>
          [] c = "gnew" -> <<"gnew">>
          [] c = "gvert" -> <<"gvert", g>>
          [] c = "gedge" -> <<"gedge", g, IF Chance(30) THEN -1 ELSE R(0..nv), IF Chance(40) THEN -2 ELSE R(0..nv)>>
          [] c = "gwrite" -> <<"gwrite", g, k>>
          [] c = "gfile" -> <<"gfile", k>>
          [] c = "glost" -> <<"glost", g>>
          [] OTHER -> GenOp(st, c)
ACats == <<"amap", "anil", "anil", "anew", "anew", "awrite", "awrite", "awrite", "awrite", "awrite", "apat", "apat", "apat", "aread", "aread", "aread", "aread", "aload", "aload", "aload", "agarb", "alost",
           "alit", "alit", "alit", "aview", "aview", "aview", "share", "get", "put", "lit">>
GCats == <<"gnew", "gvert", "gvert", "gvert", "gedge", "gedge", "gedge", "gedge", "gedge", "gwrite", "gfile", "glost">>
XStepOf(st, ff, op) ==
    IF op[1] \in AOps
    THEN LET a == MApply(st, ff, op) IN
         IF a.ok = "skip" THEN [ok |-> "skip", s |-> st, f |-> ff, r |-> <<>>]
         ELSE IF ~Acyclic(a.s.h) THEN [ok |-> "skip", s |-> st, f |-> ff, r |-> <<>>]
         ELSE [ok |-> a.ok, s |-> Canon(a.s), f |-> a.f, r |-> a.r]
    ELSE LET a == Step(st, op) IN [ok |-> a.a.ok, s |-> a.t, f |-> ff, r |-> ResOf(a.a)]
MVisible(st) == [st EXCEPT !.v = SubSeq(@, 1, NHidden)]
MObs(st) == Obs(Canon(MVisible(st)))
(* one kind of program or the other *)
Cats1 == IF hist # <<>> /\ hist[1][1][1] = "gnew" THEN GCats ELSE ACats
XNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {XOp(s, f, IF hist = <<>> /\ Chance(4) THEN "gnew" ELSE Pick(Cats1))} :
       \E q \in {XStepOf(s, f, op)} :
         IF q.ok = "skip" \/ ~InBounds(q.s) THEN UNCHANGED <<s, f, hist, last>>
         ELSE /\ s' = q.s /\ f' = q.f /\ last' = op
              /\ hist' = Append(hist, <<op, q.ok, q.r, MObs(q.s), FALSE>>)
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every sample; every small shape; every small graph                      *)
(***************************************************************************)
Start == <<<<"set", 1, <<>>, <<"L", <<"m", <<<<<<"s", B("rate")>>, <<"i", 16000>>>>>>>>>>>>, <<"anew", 1, 1>>, <<"anew", 2, 0>>>>
Chunk(k) == Start \o <<<<"apat", 1, 1, IF k % 2 = 0 THEN "f" ELSE "d", 0, 2048, 1, 2048 * k>>, <<"aread", 2, 1>>>>
Shape1(ch, n, b) == Start \o <<<<"apat", 1, 1, "f", ch, n, 257, b>>, <<"aread", 2, 1>>, <<"apat", 1, 2, "d", ch, n, 1031, b>>, <<"aread", 1, 2>>, <<"aread", 1, 1>>>>
GraphOf(es) == <<<<"gnew">>, <<"gvert", 1>>, <<"gvert", 1>>, <<"gvert", 1>>>> \o [i \in 1..Len(es) |-> <<"gedge", 1, es[i] \div 3, es[i] % 3>>] \o <<<<"gwrite", 1, 1>>, <<"gfile", 1>>>>
XInit == /\ last \in {<<1, k>> : k \in 0..31} \cup {<<2, ch, n>> : ch \in 0..9, n \in 0..(8 * MaxN)} \cup UNION {{<<3>> \o e : e \in [1..k -> 0..8]} : k \in 0..MaxN}
         /\ s = Empty(NV + 2) /\ hist = <<>> /\ f = F0
RECURSIVE XRun(_, _, _, _)
XRun(st, ff, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == XStepOf(st, ff, Head(os)) IN
         IF q.ok = "skip" THEN XRun(st, ff, Tail(os), acc)
         ELSE XRun(q.s, q.f, Tail(os), Append(acc, <<Head(os), q.ok, q.r, MObs(q.s), FALSE>>))
XAll == /\ last # <<0>>
        /\ hist' = XRun(Empty(NV + 2), F0, IF last[1] = 1 THEN Chunk(last[2]) ELSE IF last[1] = 2 THEN Shape1(last[2], last[3], 977 * last[3]) ELSE GraphOf(Tail(last)), <<>>)
        /\ last' = <<0>> /\ s' = s /\ f' = f
        /\ PrintT("T" \o ToJson(hist'))

(***************************************************************************)
(* In the model: what is read is what the history last wrote there         *)
(***************************************************************************)
LastWrite(n, k) == LET m == {i \in 1..n : hist[i][1][1] \in {"awrite", "apat"} /\ hist[i][1][3] = k /\ hist[i][2] = "ok"} IN
                   IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : j <= i
Kept == \A i \in 1..Len(hist) : (hist[i][1][1] = "aread" /\ hist[i][2] = "ok") =>
            LET w == LastWrite(i, hist[i][1][3]) IN w # 0 /\ (hist[w][1][1] = "apat" => hist[i][3][4] = Pattern(Len(hist[i][3][4]), hist[w][1][7], hist[w][1][8]))
=============================================================================
