------------------------------- MODULE XmlGen -------------------------------
(***************************************************************************)
(* Generation of documents, well-formed ones and ones that are not quite   *)
(***************************************************************************)
EXTENDS StoreGen, Xml
CONSTANT MaxN

XName(st) == Pick(<<B("a"), B("a"), B("b"), B("c-1"), B("_x"), B("N:s.2"), B("text"), B("abcd")>>)
XUnit(st) == Pick(<<<<97>>, <<98>>, <<32>>, <<60>>, <<62>>, <<38>>, <<34>>, <<39>>, <<59>>, <<93>>, <<47>>, <<61>>, <<10>>, <<9>>, <<13>>, <<-61, -87>>, <<35>>, <<127>>>>)
XStr(st) == Concat([i \in 1..Pick(<<0, 1, 1, 2, 3, 4, 4, IF Chance(6) THEN R(5..60) ELSE 2>>) |-> XUnit(st)])
RECURSIVE XTree(_, _)
XTree(st, d) ==
    Elem(XName(st), LET n == Pick(<<0, 0, 1, 2, 3>>) IN [i \in 1..n |-> <<<<96 + i>> \o Pick(<<<<>>, <<45>>, <<120, 121>>>>), XStr(st)>>],
         [i \in 1..Pick(<<0, 1, 1, 2, 3>>) |-> IF d = 0 \/ Chance(3) THEN <<"s", XStr(st)>> ELSE XTree(st, d - 1)])
(* a text for a tree *)
XSp(n) == Pick(<<<<>>, <<>>, <<32>>, <<10>>, <<9>>, <<13, 10>>, <<32, 32>>>>)
XSp1(n) == Pick(<<<<32>>, <<32>>, <<10>>, <<9>>, <<13, 10>>, <<32, 10, 32>>, <<13>>>>)
DecRef(ch) == <<38, 35>> \o DigitsOf(ch) \o <<59>>
HexRef(ch) == <<38, 35, 120>> \o Pick(<<<<>>, <<48>>>>) \o <<IF ch \div 16 < 10 THEN 48 + (ch \div 16) ELSE 87 + (ch \div 16), IF ch % 16 < 10 THEN 48 + (ch % 16) ELSE Pick(<<87, 55>>) + (ch % 16)>> \o <<59>>
Named(ch) == CASE ch = 60 -> B("&lt;") [] ch = 62 -> B("&gt;") [] ch = 38 -> B("&amp;") [] ch = 39 -> B("&apos;") [] ch = 34 -> B("&quot;") [] OTHER -> HexRef(ch)
Esc1(ch, must) == IF ch < 0 THEN <<ch>>
                  ELSE IF must \/ Chance(12) THEN Pick(<<Named(ch), Named(ch), DecRef(ch), HexRef(ch)>>)
                  ELSE <<ch>>
EscText(q) == Concat([i \in 1..Len(q) |-> (IF q[i] \notin -128..-65 /\ Chance(10) THEN Pick(<<<<10>>, <<13, 10>>>>) ELSE <<>>) \o Esc1(q[i], q[i] \in {60, 38, 62, 10, 13})])
EscAttr(q, quote) == Concat([i \in 1..Len(q) |-> IF q[i] = 32 THEN Pick(<<<<32>>, <<32>>, <<10>>, <<9>>, <<13, 10>>>>) ELSE Esc1(q[i], q[i] \in {60, 38, 10, 13, 9, quote})])
RECURSIVE Render(_, _)
Render(l, k) ==
    IF l[1] = "s" THEN EscText(l[2])
    ELSE LET name == l[2][1][2]
             at == l[2][2]
             da == l[2][4]
             one(p) == LET q == Pick(<<34, 39>>) IN XSp1(k) \o p[1][2] \o XSp(1) \o <<61>> \o XSp(2) \o <<q>> \o EscAttr(p[2][2], q) \o <<q>>
             as == IF at = Nil THEN <<>> ELSE Concat([i \in 1..Len(at[2]) |-> one(at[2][i])])
         IN  IF da = Nil /\ Chance(2) THEN <<60>> \o name \o as \o XSp(3) \o <<47, 62>>
             ELSE <<60>> \o name \o as \o XSp(4) \o <<62>> \o (IF da = Nil THEN <<>> ELSE Concat([i \in 1..Len(da[2]) |-> Render(da[2][i], k + i)]))
                  \o <<60, 47>> \o name \o XSp(5) \o <<62>>
Decl1(n) == IF Chance(2) THEN <<>> ELSE R(Decls) \o XSp(6)
XDoc(st) == Decl1(1) \o Pick(<<<<>>, <<10>>>>) \o Render(XTree(st, Pick(<<0, 1, 1, 2, 3>>)), 1) \o Pick(<<<<>>, <<10>>, <<13, 10>>, <<32, 10, 9>>, <<10, 10>>>>)
XDoc0(st) == Render(XTree(st, Pick(<<0, 1, 2>>)), 1)
Frags == <<B("<"), B(">"), B("&"), B("/>"), B("</a>"), B("<a>"), B("</b>"), B("<b/>"), B("]]>"), B("\""), B("'"), B("&lt;"), B("&#65;"), B("&#x41"), B("&#0;"), B("&no;"), B(" p='1'"), B(" a='1'"), B("="), <<0>>, <<1>>,
           <<10>>, B("x"), B("/"), B(" "), B("&#233;"), B("--"), B("&#10;"), B("&#13;")>>
(* one change somewhere *)
Hurt(t) ==
    LET n == Len(t)
        p == R(0..n)
        k == R(1..4)
        w == IF p + R(1..3) > n THEN n ELSE p + R(1..3)
    IN  IF k = 1 THEN SubSeq(t, 1, p)
        ELSE IF k = 2 THEN SubSeq(t, 1, p) \o From(t, w + 1)
        ELSE SubSeq(t, 1, p) \o Pick(Frags) \o From(t, p + 1)
Hurt2(t, k) == IF k = 0 THEN t ELSE Hurt(t)
ElemVars(st) == {v \in Vars : IsElem(st.h, st.v[v])}
RECURSIVE InElem(_, _, _)
InElem(st, x, d) ==      \* the path to an element below x
    LET data == Item(st.h, x[2], 3)
        ks == {i \in 0..Size(st.h, data) - 1 : IsRef(data) /\ IsElem(st.h, Item(st.h, data[2], i))}
    IN  IF d = 0 \/ ks = {} \/ Chance(3) THEN <<>>
        ELSE LET i == R(ks) IN <<I(3), I(i)>> \o InElem(st, Item(st.h, data[2], i), d - 1)
XOp(st, c) ==
    LET x == R(Vars)
        z == R(Vars)
        es == ElemVars(st)
        e == IF es = {} THEN x ELSE R(es)
        p == IF es = {} THEN <<>> ELSE InElem(st, st.v[e], 3)
        y == IF es # {} /\ Chance(3) THEN <<"P", R(es), <<>>>> ELSE <<"L", IF Chance(2) THEN Str(XStr(st)) ELSE XTree(st, 1)>>
    IN  CASE c = "xdoc" -> <<"xread", XDoc(st), z>>
          [] c = "xhurt" -> <<"xread", LET t == XDoc0(st) IN IF Chance(4) THEN Hurt2(Hurt(t), 1) ELSE Hurt(t), z>>
          [] c = "xmiss" -> <<"xmiss", z>>
          [] c = "xround" -> <<"xround", IF Chance(12) THEN x ELSE e, z>>
          [] c = "xlit" -> <<"set", z, <<>>, <<"L", XTree(st, Pick(<<0, 1, 2, 3>>))>>>>
          [] c = "xattr" -> IF es = {} THEN <<"set", z, <<>>, <<"L", XTree(st, 1)>>>> ELSE <<"set", e, p \o <<I(1), K(Str(Pick(<<B("a"), B("k"), B("z")>>)))>>, <<"L", Str(XStr(st))>>>>
          [] c = "xpush" -> IF es = {} THEN <<"set", z, <<>>, <<"L", XTree(st, 1)>>>> ELSE <<"push", e, p \o <<I(3)>>, y>>
          [] c = "xtype" -> IF es = {} THEN <<"set", z, <<>>, <<"L", XTree(st, 1)>>>> ELSE <<"push", e, p \o <<I(R(0..2))>>, <<"L", <<"c", 120>>>>>>
          [] c = "xname" -> IF es = {} THEN <<"set", z, <<>>, <<"L", XTree(st, 1)>>>> ELSE <<"set", e, p \o <<I(0)>>, <<"L", Str(XName(st))>>>>
          [] OTHER -> GenOp(st, c)
XCats == <<"xdoc", "xdoc", "xdoc", "xdoc", "xhurt", "xhurt", "xhurt", "xhurt", "xmiss", "xround", "xround", "xround", "xround", "xround", "xlit", "xlit", "xattr", "xattr", "xattr", "xpush", "xpush", "xpush",
           "xtype", "xname", "share", "copy", "nil", "get">>
XStepOf(st, op) ==
    IF op[1] \in XmlOps
    THEN LET a == XApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE Step(st, op)
XNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {XOp(s, Pick(XCats))} :
       \E q \in {XStepOf(s, op)} :
         IF q.a.ok = "skip" \/ ~InBounds(q.t) THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every document made of few of these pieces                              *)
(***************************************************************************)
Pieces == <<B("<a>"), B("</a>"), B("<b p='1'>"), B("</b>"), B("<c/>"), B("x"), <<10>>, B(" "), B("&amp;"), B("<"), B(">"), B("&#10;"), B("</a>"), <<60, 97, 10, 62>>>>
Pieces1 == [i \in 1..Len(Pieces) |-> IF i = 13 THEN <<60, 47, 97, 10, 62>> ELSE Pieces[i]]
XSeqs(n) == UNION {[1..k -> 1..Len(Pieces1)] : k \in 0..n}
XInit == last \in XSeqs(MaxN - 1) /\ s = Empty(NV) /\ hist = <<>>
RECURSIVE XRun(_, _, _)
XRun(st, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == XStepOf(st, Head(os)) IN
         IF q.a.ok = "skip" THEN XRun(st, Tail(os), acc)
         ELSE XRun(q.t, Tail(os), Append(acc, <<Head(os), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
XAllOps(t) == Concat([i \in 1..Len(Pieces1) |-> LET u == t \o Pieces1[i] IN <<<<"xread", u, 1>>, <<"xread", B("<a>") \o u \o B("</a>"), 2>>, <<"xround", 2, 3>>>>])
XAll == /\ last # <<0>>
        /\ hist' = XRun(Empty(NV), XAllOps(Concat([i \in 1..Len(last) |-> Pieces1[last[i]]])), <<>>)
        /\ last' = <<0>> /\ s' = s
        /\ PrintT("T" \o ToJson(hist'))

(* in the model: what a tree is written as means that tree *)
RECURSIVE Unread(_, _)
Unread(h, x) == IF IsStr(h, x) THEN <<"s", Codes(h, x)>>
                ELSE LET at == Item(h, x[2], 1)
                         da == Item(h, x[2], 3)
                     IN  Elem(Codes(h, Item(h, x[2], 0)), [i \in 1..Size(h, at) |-> <<Codes(h, h[at[2]].e[i][1]), Codes(h, h[at[2]].e[i][2])>>],
                              [i \in 1..Size(h, da) |-> Unread(h, Item(h, da[2], i - 1))])
Means == \A v \in Vars : IsElem(s.h, s.v[v]) => LET w == Writes(s.h, s.v[v]) IN
             w.ok = "ok" => LET d == Doc(Render(Unread(s.h, s.v[v]), 1)) IN d.ok = "ok" /\ d.x = w.x
=============================================================================
