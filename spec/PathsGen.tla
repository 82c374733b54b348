------------------------------ MODULE PathsGen ------------------------------
(***************************************************************************)
(* Generation of file systems, paths into them, and listings               *)
(***************************************************************************)
EXTENDS StoreGen, Paths
CONSTANT MaxN
VARIABLE fs

Fs0 == [t |-> [l \in {} |-> <<>>], ob |-> <<>>]
PUnit(n) == Pick(<<<<97>>, <<98>>, <<46>>, <<46>>, <<32>>, <<-61, -87>>, <<-1>>, <<10>>, <<34>>, <<92>>, <<42>>, <<45>>, <<126>>, <<65>>, <<126>>, <<127>>, <<1>>>>)
PRaw(n) == Concat([i \in 1..Pick(<<1, 2, 2, 3, 3, 4, IF Chance(5) THEN R(5..90) ELSE 2>>) |-> PUnit(i)])
PName(st) == LET raw == PRaw(st) IN
             IF raw \in {B("."), B("..")} \/ Chance(2)
             THEN Pick(<<B("a"), B("b"), B("c.x"), B(".h"), B("a.b.c"), B("d."), B("..e"), B("a b"), B("ab"), B("A"), B(".h.t"), B("...")>>)
             ELSE raw
Dirs(t) == {<<>>} \cup {l \in DOMAIN t : t[l][1] = "d"}
DirPick(t) == LET ds == Dirs(t) IN IF Chance(4) THEN <<>> ELSE R(ds)
LocPick(t) == LET a == {<<>>} \cup DOMAIN t IN R(a)
FKind(n) == Pick(<<"f", "f", "f", "d", "d", "d", "l">>)
RECURSIVE SlashJoin(_)
SlashJoin(l) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1]
                ELSE l[1] \o (IF Chance(12) THEN B("/./") ELSE IF Chance(16) THEN B("//") ELSE IF Chance(14) THEN <<47>> \o l[2] \o B("/../") ELSE <<47>>) \o SlashJoin(Tail(l))
PText(st, t) ==
    LET l == IF Chance(9) THEN Append(LocPick(t), PName(st)) ELSE IF Chance(3) THEN LocPick(t) ELSE DirPick(t)
        w == SlashJoin(l)
    IN  (IF w = <<>> THEN Pick(<<B("."), B("."), B("./")>>) ELSE (IF Chance(5) THEN B("./") ELSE <<>>) \o w)
        \o (IF Chance(7) THEN <<47>> ELSE IF Chance(20) THEN B("/.") ELSE <<>>)
Some(f) == Len(f.ob) > 0
XOp(st, f, c) ==
    LET z == R(Vars)
        o == IF Some(f) THEN R(1..Len(f.ob)) ELSE 0
        val == R(0..1)
        text == PText(st, f.t)
    IN  CASE c = "fmk" -> LET k == FKind(st) IN <<"fmk", k, Append(DirPick(f.t), PName(st)), IF k = "l" THEN (IF Chance(5) THEN <<PName(st)>> ELSE LocPick(f.t)) ELSE <<>>>>
          [] c = "frm" /\ DOMAIN f.t # {} -> <<"frm", R(DOMAIN f.t)>>
          [] c = "pmake" -> IF Chance(20) THEN <<"pmake", 0, <<>>>> ELSE IF Chance(8) THEN <<"phere">> ELSE IF Chance(4) THEN <<"pmake", 1, IF text = <<>> \/ text = B(".") THEN <<>> ELSE <<47>> \o text>> ELSE <<"pmake", 0, text>>
          [] c = "pdir" /\ Some(f) -> <<"pdir", o, val, z>>
          [] c = "prdir" /\ Some(f) -> <<"prdir", o, val, z>>
          [] c = "ptree" /\ Some(f) -> <<"ptree", o, z>>
          [] c \in {"frm", "pdir", "prdir", "ptree"} -> <<"pmake", 0, text>>
          [] OTHER -> GenOp(st, c)
XCats == <<"fmk", "fmk", "fmk", "fmk", "fmk", "fmk", "fmk", "fmk", "frm", "pmake", "pmake", "pmake", "pdir", "pdir", "prdir", "prdir", "ptree", "ptree", "share", "nil">>
XStepOf(st, f, op) ==
    IF op[1] \in FsOps
    THEN LET a == PApply(st, f, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE, f |-> f]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE, f |-> FsAfter(f, op)]
    ELSE LET q == Step(st, op) IN [a |-> q.a, t |-> q.t, drop |-> q.drop, f |-> f]
XStart == Init /\ fs = Fs0
XNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {XOp(s, fs, Pick(XCats))} :
       \E q \in {XStepOf(s, fs, op)} :
         IF q.a.ok = "skip" \/ ~InBounds(q.t) THEN UNCHANGED <<s, hist, last, fs>>
         ELSE /\ s' = q.t
              /\ fs' = q.f
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every file system of three names, each a file, a link, or a directory   *)
(* with two names in it at most                                            *)
(***************************************************************************)
Outer == <<B("a"), B("b.c"), B(".d.")>>
Inner == <<B("x"), B(".y.z")>>
(* what one name is: 0 nothing, 1 file, 2 link to the second, 3 link to    *)
(* nowhere, 4 + 3i + j a directory, i and j for what is in it              *)
Whats == IF MaxN = 1 THEN {0, 1, 2, 4, 5, 8, 11, 12} ELSE 0..12
XInit == last \in [1..3 -> Whats] /\ s = Empty(NV) /\ hist = <<>> /\ fs = Fs0
In1(dir, n, w) == CASE w = 0 -> <<>> [] w = 1 -> <<<<"fmk", "f", <<dir, n>>, <<>>>>>> [] OTHER -> <<<<"fmk", "d", <<dir, n>>, <<>>>>>>
Out1(i, w) ==
    CASE w = 0 -> <<>>
      [] w = 1 -> <<<<"fmk", "f", <<Outer[i]>>, <<>>>>>>
      [] w = 2 -> <<<<"fmk", "l", <<Outer[i]>>, <<Outer[2]>>>>>>
      [] w = 3 -> <<<<"fmk", "l", <<Outer[i]>>, <<B("none")>>>>>>
      [] OTHER -> <<<<"fmk", "d", <<Outer[i]>>, <<>>>>>> \o In1(Outer[i], Inner[1], (w - 4) \div 3) \o In1(Outer[i], Inner[2], (w - 4) % 3)
XAllOps(w) ==
    <<<<"pmake", 0, B(".")>>, <<"phere">>, <<"pmake", 0, B("b.c/")>>, <<"pmake", 1, B("/a")>>>>
    \o Out1(1, w[1]) \o Out1(2, w[2]) \o Out1(3, w[3])
    \o Concat([o \in 1..4 |-> <<<<"pdir", o, 0, 1>>, <<"prdir", o, 0, 2>>, <<"ptree", o, 3>>, <<"pdir", o, 1, 1>>, <<"prdir", o, 1, 2>>>>])
    \o <<<<"frm", <<Outer[1]>>>>, <<"ptree", 1, 3>>, <<"frm", <<Outer[2]>>>>, <<"prdir", 2, 0, 2>>, <<"pdir", 3, 0, 2>>>>
RECURSIVE XRun(_, _, _, _)
XRun(st, f, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == XStepOf(st, f, Head(os)) IN
         IF q.a.ok = "skip" THEN XRun(st, f, Tail(os), acc)
         ELSE XRun(q.t, q.f, Tail(os), Append(acc, <<Head(os), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
XAll == /\ last # <<0>>
        /\ hist' = XRun(Empty(NV), Fs0, XAllOps(last), <<>>)
        /\ last' = <<0>> /\ s' = s /\ fs' = fs
        /\ PrintT("T" \o ToJson(hist'))

FsOk == /\ \A l \in DOMAIN fs.t : Len(l) = 1 \/ IsDirAt(fs.t, SubSeq(l, 1, Len(l) - 1))
        /\ Everything(fs.t)
        /\ \A l \in DOMAIN fs.t : Whole(Join1(B("."), Name(l))) /\ Whole(Name(l)) /\ Whole(<<47>> \o Name(l))
=============================================================================
