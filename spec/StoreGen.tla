------------------------------ MODULE StoreGen ------------------------------
(***************************************************************************)
(* Generation of programs over Store, and the properties of the model      *)
(* itself.  Two modes:                                                     *)
(*  - exhaustive: breadth first search over all operations of a small      *)
(*    alphabet; one program (the path to a state and one more operation)   *)
(*    is emitted for each transition;                                      *)
(*  - random (tlc -simulate): operations drawn at random from a large      *)
(*    alphabet; each behaviour is emitted as one program with the expected *)
(*    state after every operation.                                         *)
(***************************************************************************)
EXTENDS StoreStep
CONSTANTS NV,        \* number of variables
          Profile,   \* which property drives the choice of operations
          MaxLen, MaxCells, Depth,
          Random     \* TRUE: simulation
VARIABLES s, hist, last

InBounds(t) == /\ Len(t.h) <= MaxCells
               /\ \A i \in 1..Len(t.h) : Len(t.h[i].e) <= MaxLen

(***************************************************************************)
(* Alphabets                                                               *)
(***************************************************************************)
I(i) == <<"i", i>>
K(l) == <<"k", l>>
Str(q) == <<"s", q>>
Scalars == {<<"c", 97>>, <<"c", 49>>, <<"i", 0>>, <<"i", 1>>, <<"i", 7>>, <<"l", 3>>,
            <<"f", 10>>, <<"d", -6>>, <<"d", 8>>, <<"y", <<4, 6>>>>}
WideOn == Profile \notin {"plain", "flip"}
Wides == IF ~WideOn THEN {<<"l", 12>>, <<"d", 6>>} ELSE {<<"l", 500000001>>, <<"l", 500000002>>, <<"l", -500000003>>, <<"l", 500000005>>, <<"d", 2000000006>>, <<"d", -2000000004>>, <<"d", 2000000018>>}
Strings == {Str(<<>>), Str(<<97>>), Str(<<98>>), Str(<<97, 98>>), Str(<<49, 50>>), Str(<<32, 51, 120>>)}
Denses == {<<"a", "i", <<>>>>, <<"a", "i", <<5>>>>, <<"a", "i", <<5, 6, 7>>>>, <<"a", "l", <<1, 2>>>>,
           <<"a", "f", <<1, 2, 3>>>>, <<"a", "d", <<4, 8, 12, 16, 20, 24>>>>,
           <<"a", "y", <<<<4, 1>>, <<0, 8>>>>>>, <<"z", <<4, 8>>>>,
           <<"a", "z", <<<<4, 1>>, <<0, 8>>, <<12, 12>>>>>>, <<"a", "c", <<97, 98, 97, 98>>>>,
           <<"a", "i", <<0, 1, 2, 3, 4, 5, 6, 7>>>>}
VarArrs == {<<"v", <<>>>>, <<"v", <<<<"i", 1>>, Str(<<97>>)>>>>, <<"v", <<Nil, <<"v", <<<<"d", 2>>>>>>>>>>,
            <<"v", <<Str(<<97>>), Str(<<98>>), Str(<<97>>)>>>>}
Keys == {<<"i", 1>>, <<"i", 2>>, <<"l", 1>>, <<"d", 6>>, <<"c", 97>>, Str(<<97>>), Str(<<98>>),
         Str(<<97, 98>>), Str(<<>>), <<"a", "i", <<1>>>>}
KeySeq == <<<<"i", 1>>, <<"i", 2>>, <<"l", 1>>, <<"d", 6>>, <<"c", 97>>, Str(<<97>>), Str(<<98>>),
         Str(<<97, 98>>), Str(<<>>), <<"a", "i", <<1>>>>>>
StrKeys == {Str(<<97>>), Str(<<98>>), Str(<<97, 98>>), Str(<<98, 97>>), Str(<<>>)}

R(S) == RandomElement(S)
Pick(q) == q[R(1..Len(q))]
Vars == 1..NV
Chance(n) == R(1..n) = 1
(* long values, where MaxLen allows *)
LongMode == MaxLen \in 61..99
RLen(st) == R(0..Pick(<<20, 40, MaxLen>>))
RLong(st) ==
    LET t == R({"c", "c", "i", "l", "f", "d", "v", "s", "p"})
        k == R(1..3)
        m == R(2..9)
    IN  IF t \in {"c", "i", "l", "f", "d"} THEN <<"a", t, [i \in 1..RLen(st) |-> IF t = "c" THEN 97 + (i % m) ELSE IF k = 1 THEN i % m ELSE R(-20..20)]>>
        ELSE IF t = "s" THEN Str([i \in 1..RLen(st) |-> IF k = 1 THEN R(97..99) ELSE 97 + (i % m)])
        ELSE IF t = "v" THEN <<"v", [i \in 1..R(0..(MaxLen \div 2)) |-> IF k = 1 THEN <<"i", i>> ELSE IF k = 2 THEN Pick(<<Nil, <<"d", 6>>, Str(<<97, 98>>), <<"i", 3>>>>) ELSE Str(<<97 + (i % 26)>>)]>>
        ELSE <<"m", [i \in 1..R(0..26) |-> <<Str(<<96 + i>>), IF k = 1 THEN Str(<<97, 97 + (i % 26)>>) ELSE <<"i", i>>>>]>>
(* nearly equal to what a variable holds: one element differs *)
RNear(st, x) ==
    IF ~IsRef(x) \/ IsMap(st.h, x) \/ AType(st.h, x[2]) \notin {"c", "i", "l", "f", "d"} \/ Size(st.h, x) = 0 THEN RLong(st)
    ELSE LET n == Size(st.h, x)
             p == R(1..n)
             t == AType(st.h, x[2])
         IN  <<"a", t, [i \in 1..n |-> LET v == Item(st.h, x[2], i - 1)[2] IN IF v = U THEN 98 ELSE IF i = p /\ ~IsWide(t, v) THEN (IF t = "c" THEN R({97, 98}) ELSE v + R(-1..1)) ELSE v]>>
RLit(st) == LET k == R(1..10) IN
        IF LongMode /\ Chance(2) THEN (IF Chance(3) THEN RNear(st, st.v[R(Vars)]) ELSE RLong(st))
        ELSE IF k <= 4 THEN (IF Chance(6) THEN R(Wides) ELSE R(Scalars)) ELSE IF k <= 6 THEN R(Strings)
        ELSE IF k <= 8 THEN R(Denses) ELSE R(VarArrs \cup {Nil})
(* random literals with many duplicates, and random trees of them *)
RDense(st) ==
    LET t == R({"c", "i", "l", "f", "d"})
        n == Pick(<<0, 1, 2, 3, 5, 8, MaxLen, MaxLen>>)
        w == WideOn /\ Chance(5)
    IN  <<"a", t, [i \in 1..n |-> IF w /\ t \in {"l", "d"} /\ Chance(2) THEN R(500000001..500000004) * (IF t = "d" THEN 4 ELSE 1) * Pick(<<1, -1>>) ELSE IF t = "c" THEN R({97, 98, 99, -1, -60, 32}) ELSE R(-3..3) * (IF t \in {"f", "d"} THEN R({1, 4}) ELSE 1)]>>
RECURSIVE RTree(_, _)
RTree(st, d) ==
    LET k == R(1..12) IN
    IF d = 0 \/ k <= 3 THEN R(Scalars \cup Wides \cup {Nil, <<"i", -1>>, <<"c", -60>>, <<"l", -7>>, <<"d", 9>>, <<"f", -6>>})
    ELSE IF k <= 5 THEN R(Strings \cup {Str(<<97, -60>>), Str(<<97, 97>>)})
    ELSE IF k = 6 THEN RDense(st)
    ELSE IF k = 7 THEN R(Denses)
    ELSE IF k <= 10 THEN <<"v", [i \in 1..R(0..4) |-> RTree(st, d - 1)]>>
    ELSE IF k = 11 THEN LET o == R(1..Len(KeySeq)) IN
                      <<"m", [i \in 1..R(1..3) |-> <<KeySeq[((o + 3 * i) % Len(KeySeq)) + 1], RTree(st, d - 1)>>]>>
    ELSE <<"w", <<"a", "i", <<1, 2, 3, 1, 2, 3>>>>, R({<<2>>, <<3>>, <<1, 3>>, <<3, 1>>}), R(0..3)>>
(* a window on an array of its own *)
RWin(st) == <<"w", R({<<"a", "i", <<1, 2, 3, 1, 2, 3>>>>, <<"a", "c", <<97, 98, 99>>>>}), <<2>>, R(0..1)>>
RKey(st) == IF LongMode THEN (IF Chance(3) THEN I(R(1..12)) ELSE Str(<<R(97..122)>>)) ELSE IF Profile \in {"map"} THEN R(Keys) ELSE R(StrKeys)

(* a random path into what a variable holds now, sometimes off the end *)
RECURSIVE RPath(_, _, _)
RPath(st, x, n) ==
    IF n = 0 THEN <<>>
    ELSE IF IsMap(st.h, x)
    THEN LET k == R(1..4)
             m == Len(st.h[x[2]].e)
         IN  IF k = 1 /\ m > 0
             THEN LET i == R(0..m-1) IN <<I(i)>> \o (IF Chance(2) THEN <<>> ELSE RPath(st, Item(st.h, x[2], i), n-1))
             ELSE <<K(RKey(st))>> \o (IF Chance(8) THEN <<I(R(0..1))>> ELSE <<>>)
    ELSE IF IsNil(x) /\ Chance(2)
    THEN <<K(RKey(st))>>
    ELSE LET z == Size(st.h, x)
             i == IF Chance(12) THEN -1 ELSE IF Chance(3) \/ z = 0 THEN R(0..z+1) ELSE R(0..z-1)
         IN  <<I(i)>> \o
             (IF i \in 0..z-1 /\ IsRef(x)
              THEN LET y == Item(st.h, x[2], i) IN
                   IF IsRef(y) /\ Chance(2) THEN RPath(st, y, n-1) ELSE <<>>
              ELSE IF Chance(6) /\ ~IsScalar(x) THEN <<I(R(0..1))>> ELSE <<>>)
(* a path to the receiver of a sequence operation: a variable or an element that can hold anything *)
RRecv(st, x) == IF Chance(3) /\ (IsNil(x) \/ (IsRef(x) /\ AType(st.h, x[2]) \in {"v", "p"}))
                THEN RPath(st, x, 2) ELSE <<>>
RSrc(st) ==
    LET k == R(1..8)
        y == R(Vars)
    IN  IF k <= 3 THEN <<"L", RLit(st)>>
        ELSE IF k = 4 THEN <<"P", y, <<>>>>
        ELSE IF k = 5 THEN <<"P", y, RPath(st, st.v[y], 2)>>
        ELSE IF k = 6 THEN <<"A", y, RPath(st, st.v[y], 2)>>
        ELSE IF k = 7 THEN <<"C", y, <<>>>>
        ELSE <<"C", y, RPath(st, st.v[y], 1)>>
RIdx(st, x) == IF Chance(8) THEN Size(st.h, x) + 1 ELSE R(0..Size(st.h, x))
RShape(n) ==  \* a shape that (nearly) fits n elements
    LET a == R(1..3)
        b == R(1..3)
        c == R(1..2)
        k == R(1..9)
    IN  IF LongMode /\ n > 8 /\ k # 9 THEN (IF k <= 3 THEN <<R(1..n)>> ELSE IF k <= 5 THEN <<a, R(1..n \div a)>> ELSE IF k <= 7 THEN <<R(1..n \div b), b>> ELSE <<a, n \div (a * c), c>>)
        ELSE IF k <= 3 THEN <<IF Chance(4) THEN n + 1 ELSE R(1..(IF n < 1 THEN 1 ELSE n))>>
        ELSE IF k <= 6 THEN <<a, b>> ELSE IF k = 7 THEN <<a, b, c>>
        ELSE IF k = 8 THEN <<c, c>> ELSE R({<<>>, <<-1, 2>>, <<2, -1>>, <<4, 2>>, <<2, 4>>, <<8>>, <<-1, -2>>})
RIx(st, x) == LET d == ShapeOf(st.h, x) IN
    [i \in 1..Len(d) |-> IF Chance(9) THEN (IF Chance(2) THEN -1 ELSE d[i]) ELSE R(0..(IF d[i] > 0 THEN d[i]-1 ELSE 0))]

GenOp(st, c) ==
    LET x == R(Vars)
        y == R(Vars)
        z == R(0..NV)
        X == st.v[x]
        zz == R(Vars)
    IN  CASE c = "lit" -> <<"set", x, <<>>, <<"L", RLit(st)>>>>
          [] c = "big" -> <<"set", x, <<>>, <<"L", IF LongMode THEN RLong(st) ELSE R(Denses \cup VarArrs)>>>>
          [] c = "dense" -> <<"set", x, <<>>, <<"L", IF LongMode THEN RLong(st) ELSE R(Denses)>>>>
          [] c = "nil" -> <<"set", x, <<>>, <<"L", Nil>>>>
          [] c = "share" -> <<"set", x, <<>>, <<"P", y, <<>>>>>>
          [] c = "copy" -> <<"set", x, <<>>, <<"C", y, <<>>>>>>
          [] c = "copye" -> <<"set", x, <<>>, <<"C", y, RPath(st, st.v[y], 2)>>>>
          [] c = "put" -> <<"set", x, RPath(st, X, 3), RSrc(st)>>
          [] c = "putl" -> <<"set", x, RPath(st, X, 2), <<"L", R(Scalars \cup Strings)>>>>
          [] c = "get" -> <<"set", x, <<>>, <<Pick(<<"P", "A">>), y, RPath(st, st.v[y], 3)>>>>
          [] c = "store" -> <<"set", x, RPath(st, X, 2), <<"P", y, <<>>>>>>
          [] c = "mput" -> <<"set", x, <<K(RKey(st))>>, RSrc(st)>>
          [] c = "mput2" -> <<"set", x, <<K(RKey(st)), K(RKey(st))>>, RSrc(st)>>
          [] c = "mget" -> <<"set", x, <<>>, <<"A", y, <<K(RKey(st))>>>>>>
          [] c = "mnil" -> <<"set", x, <<>>, <<"P", y, <<K(Nil)>>>>>>
          [] c = "mkey" -> <<"key", x, R(-1..2), zz>>
          [] c = "push" -> <<"push", x, RRecv(st, X), RSrc(st)>>
          [] c = "ins" -> <<"ins", x, RRecv(st, X), RSrc(st), RIdx(st, X)>>
          [] c = "app" -> <<Pick(<<"app", "com">>), x, RRecv(st, X), RSrc(st)>>
          [] c = "uns" -> <<"uns", x, RRecv(st, X), RSrc(st)>>
          [] c = "apps" -> <<"apps", x, RRecv(st, X), R({<<>>, <<97>>, <<98, 97>>, <<97, 98, 97, 98, 97>>})>>
          [] c = "pop" -> <<"pop", x, RRecv(st, X), z>>
          [] c = "shift" -> <<"shift", x, RRecv(st, X), z>>
          [] c = "rem" -> <<"rem", x, RRecv(st, X), z, RIdx(st, X)>>
          [] c = "resize" -> <<"resize", x, RRecv(st, X), R({0, 1, 2, 3, Size(st.h, X), Size(st.h, X) + 1, MaxLen})>>
          [] c = "presize" -> <<"presize", x, RRecv(st, X), R(0..MaxLen)>>
          [] c = "clear" -> <<"clear", x, RRecv(st, X)>>
          [] c = "array" -> <<"array", x, RRecv(st, X)>>
          [] c = "view" -> <<"view", x, <<>>, zz, RShape(Size(st.h, X)),
                             IF Chance(6) THEN -1 ELSE R({0, 0, 1, 2, 3})>>
          [] c = "subv" -> <<"subv", x, zz, R({-1, 0, 1, 1, 2, 2, 3}), R({-1, 0, 0, 1, 2, 3, 4, 6})>>
          [] c = "offs" -> <<"offs", x, R(-1..6)>>
          [] c = "adv" -> <<"adv", x, R({-2, -1, 1, 2, 3})>>
          [] c = "vset" -> <<"vset", x, RIx(st, X), RSrc(st)>>
          [] c = "vget" -> <<"vget", x, RIx(st, X), zz>>
          [] c = "scope" -> <<"scope", x, RPath(st, X, 2), RSrc(st)>>
          [] c = "hold" -> <<"hold", x, RPath(st, X, 2), zz>>
          [] c = "size" -> <<"size", x, IF Chance(2) THEN <<>> ELSE RPath(st, X, 2)>>
          [] c = "index" -> <<"index", x, <<>>, RSrc(st)>>
          [] c = "mindex" -> <<"index", x, <<>>, <<"L", RKey(st)>>>>
          [] c = "cmp" -> <<"cmp", x, y>>
          [] c = "shape" -> <<"shape", x>>
          [] c = "tree" -> <<"set", x, <<>>, <<"L", IF LongMode /\ Chance(2) THEN (IF Chance(2) THEN RNear(st, X) ELSE RLong(st)) ELSE RTree(st, 3)>>>>
          [] c = "putt" -> <<"set", x, RPath(st, X, 2), <<"L", RTree(st, 2)>>>>
          [] c = "pusht" -> <<"push", x, RRecv(st, X), <<"L", RTree(st, 1)>>>>
          [] c = "putw" -> <<"set", x, RPath(st, X, 2), <<"L", RWin(st)>>>>
          [] c = "insw" -> <<"ins", x, RRecv(st, X), <<"L", RWin(st)>>, RIdx(st, X)>>
          [] c = "mputw" -> <<"set", x, <<K(RKey(st))>>, <<"L", RWin(st)>>>>
          [] c = "rdense" -> <<"set", x, <<>>, <<"L", IF LongMode /\ Chance(2) THEN RLong(st) ELSE RDense(st)>>>>
          [] c = "cmpe" -> <<"cmpe", x, RPath(st, X, 2), y, RPath(st, st.v[y], 2)>>
          [] c = "sort" -> <<"sort", x, IF Chance(3) THEN RPath(st, X, 1) ELSE <<>>>>
          [] c = "fsort" -> <<"fsort", x>>
          [] c = "findex" -> <<"index", x, IF Chance(3) THEN RPath(st, X, 1) ELSE <<>>,
                               IF Chance(2) THEN <<"A", x, RPath(st, X, 1)>> ELSE <<"L", R({<<"i", 1>>, <<"c", 97>>, <<"d", 4>>, <<"f", 4>>, Str(<<97>>)})>>>>

Cats ==
    CASE Profile = "share" -> <<"lit", "big", "share", "share", "copy", "copy", "copye", "put", "putl", "putl",
                                "get", "store", "store", "mput", "push", "pop", "scope", "scope", "view",
                                "nil", "resize", "shift", "app">>
      [] Profile = "life" -> <<"lit", "big", "share", "copy", "copye", "put", "get", "store", "store", "mput", "mput2",
                               "push", "ins", "app", "uns", "pop", "pop", "shift", "shift", "rem", "rem", "resize",
                               "resize", "clear", "clear", "nil", "hold", "hold", "scope", "view", "subv", "mkey">>
      [] Profile = "seq" -> <<"lit", "big", "big", "push", "push", "push", "ins", "ins", "app", "app", "uns", "uns", "apps",
                              "pop", "shift", "rem", "rem", "resize", "presize", "clear", "array", "share", "size", "get", "view", "store", "insw", "insw", "putw", "putw">>
      [] Profile = "elem" -> <<"lit", "lit", "put", "put", "put", "putl", "putl", "get", "get", "get", "mput", "mput2", "size",
                               "size", "size", "nil", "array", "share", "mget">>
      [] Profile = "map" -> <<"mput", "mput", "mput", "mput", "mput2", "mget", "mget", "mnil", "mkey", "mindex", "mindex",
                              "rem", "pop", "shift", "share", "copy", "put", "get", "cmp", "nil", "size", "store", "scope",
                              "resize", "mputw", "mputw", "putw">>
      [] Profile = "order" -> <<"tree", "tree", "tree", "putt", "putl", "mput", "share", "copy", "copye", "store", "view",
                                "cmp", "cmp", "cmp", "cmp", "cmpe", "cmpe", "cmpe", "cmpe", "cmpe", "index", "push", "pop">>
      [] Profile = "sort" -> <<"rdense", "rdense", "rdense", "tree", "pusht", "pusht", "pusht", "putl", "view", "subv", "share",
                               "sort", "sort", "sort", "fsort", "fsort", "fsort", "findex", "findex", "findex", "mput", "mindex", "offs">>
      [] Profile = "view" -> <<"dense", "dense", "big", "view", "view", "view", "view", "subv", "subv", "subv", "offs", "adv",
                               "vset", "vset", "vset", "vget", "putl", "put", "get", "share", "share", "copy", "shape",
                               "shape", "shape", "push", "pop", "rem", "shift", "size", "nil", "resize", "index">>

(***************************************************************************)
(* Specification                                                           *)
(***************************************************************************)
Init == /\ s = [v |-> [i \in Vars |-> Nil], h |-> <<>>]
        /\ hist = <<>>
        /\ last = <<>>

(* random mode: hist is the program with the expected observations *)
NextRandom ==
    /\ Len(hist) < Depth
    /\ \E op \in {GenOp(s, Pick(Cats))} :
       \E q \in {Step(s, op)} :
         IF q.a.ok = "skip" \/ ~InBounds(q.t)
         THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* exhaustive mode: all the operations of a small alphabet                 *)
(***************************************************************************)
L(l) == <<"L", l>>
P0 == {<<>>}
P1 == {<<>>, <<I(0)>>, <<I(1)>>}
Ka == <<K(Str(<<97>>))>>
Kb == <<K(Str(<<98>>))>>
V1 == <<"v", <<<<"i", 1>>>>>>
SmallSrc(lits, paths) == {L(l) : l \in lits} \cup {<<"P", y, p>> : y \in Vars, p \in paths}
SmallOps ==
    CASE Profile = "share" ->
           {<<"set", x, <<>>, L(l)>> : x \in Vars, l \in {<<"i", 1>>, Str(<<97, 98>>), <<"a", "d", <<4, 8>>>>, V1}}
           \cup {<<"set", x, <<>>, <<"P", y, p>>>> : x \in Vars, y \in Vars, p \in {<<>>, <<I(0)>>}}
           \cup {<<"set", x, <<>>, <<"C", y, p>>>> : x \in Vars, y \in Vars, p \in {<<>>, <<I(0)>>}}
           \cup {<<"set", x, <<I(0)>>, y>> : x \in Vars, y \in SmallSrc({<<"i", 7>>, Str(<<97, 98>>)}, P0)}
           \cup {<<"push", x, <<>>, y>> : x \in Vars, y \in SmallSrc({<<"i", 7>>}, P0)}
           \cup {<<"pop", x, <<>>, z>> : x \in Vars, z \in {0} \cup Vars}
           \cup {<<"scope", x, p, L(<<"c", 98>>)>> : x \in Vars, p \in {<<>>, <<I(0)>>}}
           \cup {<<"view", x, <<>>, y, <<1>>, 1>> : x \in Vars, y \in Vars}
      [] Profile = "life" ->
           {<<"set", x, <<>>, L(l)>> : x \in Vars, l \in {Nil, Str(<<97, 98>>), <<"v", <<Str(<<97>>), V1>>>>}}
           \cup {<<"set", x, p, <<"P", y, <<>>>>>> : x \in Vars, y \in Vars, p \in {<<>>, <<I(0)>>, Ka}}
           \cup {<<"set", x, <<>>, <<"P", y, p>>>> : x \in Vars, y \in Vars, p \in {<<I(0)>>, <<I(1)>>}}
           \cup {<<"set", x, <<>>, <<"C", y, <<>>>>>> : x \in Vars, y \in Vars}
           \cup {<<o, x, p, z>> : o \in {"pop", "shift"}, x \in Vars, p \in {<<>>, <<I(0)>>}, z \in {0} \cup Vars}
           \cup {<<"rem", x, <<>>, z, i>> : x \in Vars, z \in {0} \cup Vars, i \in {0, 1}}
           \cup {<<"resize", x, p, n>> : x \in Vars, p \in {<<>>, <<I(0)>>}, n \in {0, 1, 3}}
           \cup {<<"clear", x, p>> : x \in Vars, p \in {<<>>, <<I(0)>>}}
           \cup {<<"hold", x, p, y>> : x \in Vars, y \in Vars, p \in {<<I(0)>>, Ka}}
           \cup {<<"ins", x, <<>>, <<"P", y, p>>, i>> : x \in Vars, y \in Vars, p \in {<<>>, <<I(0)>>}, i \in {0, 1}}
           \cup {<<"view", x, <<>>, y, <<1>>, 1>> : x \in Vars, y \in Vars}
      [] Profile = "seq" ->
           {<<"set", 1, <<>>, L(l)>> : l \in {Nil, <<"i", 7>>, Str(<<97, 98>>), <<"a", "d", <<4, 10>>>>, <<"a", "z", <<<<4, 8>>, <<0, 4>>>>>>,
                                              <<"v", <<<<"i", 1>>, Str(<<50>>)>>>>}}
           \cup {<<"set", 2, <<>>, <<"P", 1, p>>>> : p \in {<<>>, <<I(0)>>}}
           \cup {<<o, 1, <<>>, y>> : o \in {"push", "app", "com", "uns"},
                    y \in {L(<<"i", 5>>), L(Str(<<51>>)), L(<<"a", "d", <<4, 10>>>>), <<"P", 1, <<I(0)>>>>, <<"P", 2, <<>>>>}}
           \cup {<<"ins", 1, <<>>, y, i>> : i \in 0..2,
                    y \in {L(<<"i", 5>>), L(Str(<<51>>)), L(<<"a", "d", <<4, 10>>>>), <<"P", 1, <<I(1)>>>>, <<"P", 2, <<>>>>}}
           \cup {<<o, 1, <<>>, z>> : o \in {"pop", "shift"}, z \in {0, 2}}
           \cup {<<"rem", 1, <<>>, z, i>> : z \in {0, 2}, i \in 0..2}
           \cup {<<o, 1, <<>>, n>> : o \in {"resize", "presize"}, n \in 0..3}
           \cup {<<"apps", 1, <<>>, <<98>>>>, <<"clear", 1, <<>>>>, <<"array", 1, <<>>>>}
      [] Profile = "elem" ->
           {<<"set", 1, <<>>, L(l)>> : l \in {Nil, <<"i", 7>>, <<"z", <<4, 8>>>>, Str(<<49, 50>>), <<"a", "d", <<4, 10>>>>,
                                              <<"v", <<<<"i", 1>>, Str(<<50>>)>>>>}}
           \cup {<<"set", 1, p, L(l)>> : p \in {<<I(-1)>>, <<I(0)>>, <<I(1)>>, <<I(2)>>, <<I(1), I(0)>>, <<I(1), I(1)>>, Ka},
                      l \in {<<"c", 49>>, <<"i", 3>>, <<"d", -6>>, <<"y", <<4, 8>>>>, Str(<<49>>), Nil}}
           \cup {<<"set", 2, <<>>, <<o, 1, p>>>> : o \in {"P", "A"}, p \in {<<I(-1)>>, <<I(0)>>, <<I(1)>>, <<I(2)>>, <<I(1), I(0)>>, Ka, <<I(0), K(Str(<<97>>))>>}}
           \cup {<<"size", 1, p>> : p \in {<<>>, <<I(0)>>, <<I(1)>>, <<I(1), I(0)>>, <<I(3)>>}}
      [] Profile = "map" ->
           {<<"set", x, <<K(k)>>, y>> : x \in Vars, y \in {L(<<"i", 1>>), L(<<"i", 2>>), <<"P", 2, <<>>>>},
                     k \in {<<"i", 1>>, <<"i", 2>>, Str(<<97>>), Str(<<97, 98>>), <<"d", 4>>}}
           \cup {<<"set", 2, <<>>, <<o, 1, <<K(k)>>>>>> : o \in {"P", "A"}, k \in {<<"i", 1>>, Str(<<97>>), Nil}}
           \cup {<<"rem", 1, <<>>, 0, i>> : i \in 0..1} \cup {<<"pop", 1, <<>>, 2>>, <<"shift", 1, <<>>, 2>>}
           \cup {<<"set", 2, <<>>, <<"C", 1, <<>>>>>>, <<"set", 1, <<>>, L(Nil)>>, <<"cmp", 1, 2>>}
           \cup {<<"key", 1, i, 2>> : i \in -1..1}
           \cup {<<"index", 1, <<>>, L(k)>> : k \in {<<"i", 1>>, Str(<<97>>), Str(<<98>>), <<"d", 4>>}}
      [] Profile = "view" ->
           {<<"set", 1, <<>>, L(l)>> : l \in {<<"a", "d", <<4, 8, 12, 16, 20, 24>>>>, <<"a", "i", <<5, 6, 7, 8, 9, 10>>>>}}
           \cup {<<"view", x, <<>>, y, d, o>> : x \in {1, 2}, y \in {2, 3}, o \in {0, 1, -1},
                    d \in {<<6>>, <<3>>, <<2, 3>>, <<2, 2>>, <<-1, -2>>, <<2, 4>>}}
           \cup {<<"subv", x, y, n, o>> : x \in {1, 2}, y \in {2, 3}, n \in {0, 1, 2}, o \in {-1, 0, 2, 3}}
           \cup {<<"offs", 2, o>> : o \in {-1, 0, 2, 4}} \cup {<<"adv", 2, o>> : o \in {-1, 1, 3}}
           \cup {<<"vset", 2, ix, L(<<"i", 1>>)>> : ix \in {<<1>>, <<6>>, <<0, 2>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<-1, 1>>}}
           \cup {<<"vget", 2, ix, 3>> : ix \in {<<2>>, <<1, 0>>, <<0, 3>>}}
           \cup {<<"set", x, <<>>, <<"P", y, <<>>>>>> : x \in {2, 3}, y \in {1, 2, 3}}
           \cup {<<"set", 2, <<>>, <<"C", 2, <<>>>>>>, <<"set", 2, <<I(1)>>, L(<<"i", 3>>)>>, <<"shape", 2>>,
                 <<"push", 2, <<>>, L(<<"i", 3>>)>>, <<"pop", 2, <<>>, 0>>, <<"set", 1, <<>>, L(Nil)>>}

(* The path to this state is not part of it: BFS keeps a shortest one *)
NextAll ==
    /\ Len(hist) < Depth
    /\ \E op \in SmallOps :
       \E q \in {Step(s, op)} :
         /\ q.a.ok # "skip" /\ InBounds(q.t)
         /\ s' = q.t
         /\ hist' = Append(hist, op)
         /\ last' = op
         /\ PrintT("T" \o ToJson(<<hist', q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
StateView == s

WF == WellFormed(s)
=============================================================================
