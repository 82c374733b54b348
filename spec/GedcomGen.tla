----------------------------- MODULE GedcomGen -----------------------------
(***************************************************************************)
(* Generation of GEDCOM files, whole, broken off and otherwise odd         *)
(***************************************************************************)
EXTENDS Gedcom, StoreGen
CONSTANT MaxN
VARIABLE f

Line(l, x, t, a) == <<48 + l, 32>> \o (IF x = <<>> THEN <<>> ELSE x \o <<32>>) \o t \o (IF a = <<>> THEN <<>> ELSE <<32>> \o a) \o <<10>>
Xref(c, i) == <<64, c, 48 + i, 64>>
GByte(st) == Pick(<<97, 98, 47, 32, 32, 64, 49, 48, -61, 34, 65>>)
GArg(st) == [i \in 1..Pick(<<0, 1, 1, 2, 4, 7, IF Chance(6) THEN R(10..140) ELSE 3>>) |-> GByte(st)]
GDetail(st, l) == Line(l, <<>>, R(Detail), GArg(st))
GDetails(st) == Concat([i \in 1..Pick(<<0, 0, 1, 2, 3>>) |-> GDetail(st, 2) \o IF Chance(5) THEN GDetail(st, 3) ELSE <<>>])
GFact(st, k) == LET t == Pick(<<B("NAME"), B("NAME"), B("NAME"), B("TITL"), B("SEX"), B("BIRT"), B("DEAT"), B("CHR"), B("BURI"), B("OCCU"), B("NOTE"), B("FAMS"), B("FAMC")>>) IN
                Line(1, <<>>, t, GArg(st)) \o IF Chance(2) THEN GDetails(st) ELSE <<>>
GInd(st, i) == Line(0, Xref(73, i), B("INDI"), <<>>) \o Concat([k \in 1..Pick(<<0, 1, 2, 3, 5>>) |-> GFact(st, k)])
GTie(st, n) == IF Chance(3) THEN Line(1, <<>>, Pick(<<B("MARR"), B("MARR"), B("DIV"), B("NOTE"), B("REFN")>>), IF Chance(2) THEN <<>> ELSE GArg(st)) \o GDetails(st)
               ELSE Line(1, <<>>, Pick(<<B("HUSB"), B("WIFE"), B("CHIL"), B("CHIL"), B("CHIL")>>), Xref(73, IF Chance(8) THEN 9 ELSE R(1..n)) \o IF Chance(9) THEN <<32, 97>> ELSE <<>>)
GFam(st, i, n) == Line(0, Xref(70, i), B("FAM"), <<>>) \o Concat([k \in 1..Pick(<<0, 1, 2, 3, 4, 6>>) |-> GTie(st, n)])
GHead(st) == Line(0, <<>>, B("HEAD"), <<>>) \o Concat([k \in 1..Pick(<<0, 1, 2, 3>>) |-> Line(1, <<>>, Pick(<<B("SOUR"), B("CHAR"), B("NAME"), B("_X")>>), GArg(st)) \o IF Chance(3) THEN Line(2, <<>>, B("VERS"), <<53>>) ELSE <<>>])
GSub(st) == IF Chance(3) THEN Line(0, <<64, 83, 64>>, B("SUBM"), <<>>) \o (IF Chance(2) THEN Line(1, <<>>, B("NAME"), GArg(st)) ELSE <<>>) ELSE <<>>
GBody(st) == LET n == R(0..4)
                 m == IF n = 0 THEN 0 ELSE R(0..3)
                 j == R(0..n)
             IN  Concat([i \in 1..j |-> GInd(st, i)]) \o GSub(st) \o Concat([i \in 1..(n - j) |-> GInd(st, j + i)])
                 \o Concat([i \in 1..m |-> GFam(st, i, n) \o IF Chance(6) THEN GInd(st, R(5..6)) ELSE <<>>])
GEnd(st) == IF Chance(8) THEN <<>> ELSE Line(0, <<>>, B("TRLR"), <<>>) \o IF Chance(6) THEN GArg(st) ELSE <<>>
GText(st) == GHead(st) \o GSub(st) \o GBody(st) \o GEnd(st)
(* broken off, or a line without a level *)
Hurt(st, t) ==
    LET k == R(1..4)
        p == R(1..Len(t))
        q == IF UpTo(t, p, 10) > Len(t) THEN Len(t) ELSE UpTo(t, p, 10)
    IN  IF k = 1 THEN SubSeq(t, 1, p)
        ELSE IF k = 2 THEN SubSeq(t, 1, q)
        ELSE IF k = 3 THEN SubSeq(t, 1, q) \o Pick(<<<<10>>, <<97, 10>>, B("NAME x") \o <<10>>, <<64, 10>>>>) \o From(t, q + 1)
        ELSE IF t # <<>> THEN SubSeq(t, 1, Len(t) - 1) ELSE t
XOp(st, ff, c) ==
    LET x == R(Vars)
        z == R(Vars)
        k == R(1..2)
    IN  CASE c = "gedput" -> <<"gedput", k, IF Chance(4) THEN Hurt(st, GText(st)) ELSE GText(st)>>
          [] c = "geddel" -> <<"geddel", k>>
          [] c = "gednew" -> <<"gednew", k>>
          [] c = "gedend" -> <<"gedend">>
          [] c = "gedread" -> <<"gedread", R(1..2), k, z>>
          [] c = "gpush" -> IF IsRef(st.v[x]) /\ IsMap(st.h, st.v[x]) THEN <<"push", x, <<K(Key1("Individual"))>>, <<"L", <<"i", 7>>>>>> ELSE <<"gednew", k>>
          [] OTHER -> GenOp(st, c)
XCats == <<"gedput", "gedput", "gedput", "gedread", "gedread", "gedread", "gedread", "gedread", "gednew", "gednew", "geddel", "gedend", "gpush", "share", "get", "put", "nil">>
XStepOf(st, ff, op) ==
    IF op[1] \in GedOps
    THEN LET a == GApply(st, ff, op) IN
         IF a.ok = "skip" THEN [ok |-> "skip", s |-> st, f |-> ff, r |-> <<>>]
         ELSE [ok |-> a.ok, s |-> Canon(a.s), f |-> a.f, r |-> a.r]
    ELSE LET a == Step(st, op) IN [ok |-> a.a.ok, s |-> a.t, f |-> ff, r |-> ResOf(a.a)]
XStart == s = Empty(NV) /\ hist = <<>> /\ last = <<>> /\ f = F0
XNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {XOp(s, f, Pick(XCats))} :
       \E q \in {XStepOf(s, f, op)} :
         IF q.ok = "skip" \/ ~InBounds(q.s) THEN UNCHANGED <<s, f, hist, last>>
         ELSE /\ s' = q.s /\ f' = q.f /\ last' = op
              /\ hist' = Append(hist, <<op, q.ok, q.r, Obs(q.s), FALSE>>)
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every file made of few of these lines                                   *)
(***************************************************************************)
Pieces == <<Line(0, Xref(73, 1), B("INDI"), <<>>), Line(0, Xref(73, 2), B("INDI"), <<>>), Line(0, Xref(70, 1), B("FAM"), <<>>),
            Line(1, <<>>, B("NAME"), B("A  /B/ ")), Line(1, <<>>, B("BIRT"), <<>>), Line(2, <<>>, B("DATE"), B("1")),
            Line(1, <<>>, B("HUSB"), Xref(73, 1)), Line(1, <<>>, B("CHIL"), Xref(73, 2)), Line(1, <<>>, B("CHIL"), Xref(73, 1)), Line(1, <<>>, B("MARR"), <<>>),
            Line(1, <<>>, B("NOTE"), <<>>), Line(2, <<>>, B("CONT"), B("x")), Line(0, <<64, 83, 64>>, B("SUBM"), <<>>)>>
Front == Line(0, <<>>, B("HEAD"), <<>>) \o Line(1, <<>>, B("SOUR"), B("x"))
Back == Line(0, <<>>, B("TRLR"), <<>>)
XSeqs(n) == UNION {[1..k -> 1..Len(Pieces)] : k \in 0..n}
XInit == last \in XSeqs(MaxN - 1) /\ s = Empty(NV) /\ hist = <<>> /\ f = F0
RECURSIVE XRun(_, _, _, _)
XRun(st, ff, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == XStepOf(st, ff, Head(os)) IN
         IF q.ok = "skip" THEN XRun(st, ff, Tail(os), acc)
         ELSE XRun(q.s, q.f, Tail(os), Append(acc, <<Head(os), q.ok, q.r, Obs(q.s), FALSE>>))
XAllOps(t) == <<<<"gednew", 1>>>> \o Concat([i \in 1..Len(Pieces) |-> IF Said(Front \o t \o Pieces[i] \o Back).ok = "skip" THEN <<>>
                                                                  ELSE <<<<"gedput", 1, Front \o t \o Pieces[i] \o Back>>, <<"gedread", 1, 1, 1>>,
                                                                         <<"gedput", 1, Front \o t \o Pieces[i]>>, <<"gedread", 1, 1, 2>>>>])
XAll == /\ last # <<0>>
        /\ hist' = XRun(Empty(NV), F0, XAllOps(Concat([i \in 1..Len(last) |-> Pieces[last[i]]])), <<>>)
        /\ last' = <<0>> /\ s' = s /\ f' = f
        /\ PrintT("T" \o ToJson(hist'))
(* in the model: a text broken off anywhere before its trailer is not read *)
Whole == \A k \in 1..2 : f.fl[k] # None => LET a == Said(f.fl[k]) IN
             a.ok = "ok" => \A i \in 1..Len(LinesOf(f.fl[k], <<>>)) :
                 LET q == LinesOf(f.fl[k], <<>>)
                     t == Concat([j \in 1..i |-> q[j] \o <<10>>])
                 IN  Said(t).ok \in {"ok", "throw"} /\ (Said(t).ok = "ok" => Said(t) = a)
=============================================================================
