------------------------------- MODULE StrFun -------------------------------
(***************************************************************************)
(* The string functions: split, join, strip, upper and lower case, regular *)
(* expressions, length in code points.                                     *)
(***************************************************************************)
EXTENDS StoreGen, Text
Range(q) == {q[i] : i \in 1..Len(q)}

(***************************************************************************)
(* Definitions on sequences of bytes                                       *)
(***************************************************************************)
RECURSIVE FindSep(_, _, _), SplitBy(_, _, _), Lead(_), SpanWordW(_), Words(_, _)
(* the first place (from 1) at or after p where sep is, 0 if none *)
FindSep(t, sep, p) ==
    IF p + Len(sep) - 1 > Len(t) THEN 0
    ELSE IF SubSeq(t, p, p + Len(sep) - 1) = sep THEN p ELSE FindSep(t, sep, p + 1)
(* in at most max pieces (0: any number) *)
SplitBy(t, sep, max) ==
    LET p == FindSep(t, sep, 1) IN
    IF p = 0 \/ max = 1 THEN <<t>>
    ELSE <<SubSeq(t, 1, p - 1)>> \o SplitBy(From(t, p + Len(sep)), sep, IF max = 0 THEN 0 ELSE max - 1)
Lead(t) == IF t # <<>> /\ Head(t) \in White THEN 1 + Lead(Tail(t)) ELSE 0
SpanWordW(t) == IF t = <<>> \/ Head(t) \in White THEN 0 ELSE 1 + SpanWordW(Tail(t))
Words(t0, max) ==
    LET t == From(t0, Lead(t0) + 1)
        n == SpanWordW(t)
    IN  IF t = <<>> THEN <<>> ELSE IF max = 1 THEN <<t>>
        ELSE <<SubSeq(t, 1, n)>> \o Words(From(t, n + 1), IF max = 0 THEN 0 ELSE max - 1)
Rev(t) == [i \in 1..Len(t) |-> t[Len(t) + 1 - i]]
StripOf(t) == LET u == From(t, Lead(t) + 1) IN SubSeq(u, 1, Len(u) - Lead(Rev(u)))
UpperOf(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
LowerOf(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Fun(f, t) == CASE f = "strip" -> StripOf(t) [] f = "upper" -> UpperOf(t) [] f = "lower" -> LowerOf(t)
(* how many bytes a sequence with this first byte has; 0: it can't be first *)
LeadLen(b) == CASE b \in 0..127 -> 1 [] b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4 [] OTHER -> 0
RECURSIVE Utf(_, _)
Utf(t, n) ==
    IF t = <<>> THEN n
    ELSE LET k == LeadLen(Head(t) % 256) IN
         IF k = 0 \/ k > Len(t) THEN -1
         ELSE IF \E i \in 2..k : t[i] % 256 \notin 128..191 THEN -1
         ELSE Utf(From(t, k + 1), n + 1)

(***************************************************************************)
(* Regular expressions: the matches from p, in the order that backtracking *)
(* finds them, as <<end, groups>>; groups: sequence of <<from, to>>.  ^ and *)
(* $ hold at every line.                                                   *)
(***************************************************************************)
RECURSIVE RM(_, _, _, _), RMCat(_, _, _), RMStar(_, _, _, _), Nullable(_), ReText(_), Groups(_)
RMCat(b, t, ms) == IF ms = <<>> THEN <<>> ELSE RM(b, t, ms[1][1], ms[1][2]) \o RMCat(b, t, Tail(ms))
RMStar(a, t, p, g) ==
    LET one == RM(a, t, p, g)
        more(ms) == LET r[i \in 1..Len(ms) + 1] ==
                          IF i > Len(ms) THEN <<>>
                          ELSE (IF ms[i][1] > p THEN RMStar(a, t, ms[i][1], ms[i][2]) ELSE <<>>) \o r[i + 1]
                    IN  r[1]
    IN  more(one) \o <<<<p, g>>>>
RM(e, t, p, g) ==
    CASE e[1] = "ch" -> IF p <= Len(t) /\ t[p] = e[2] THEN <<<<p + 1, g>>>> ELSE <<>>
      [] e[1] = "any" -> IF p <= Len(t) THEN <<<<p + 1, g>>>> ELSE <<>>
      [] e[1] = "set" -> IF p <= Len(t) /\ (\E i \in 1..Len(e[2]) : e[2][i] = t[p]) THEN <<<<p + 1, g>>>> ELSE <<>>
      [] e[1] = "not" -> IF p <= Len(t) /\ ~(\E i \in 1..Len(e[2]) : e[2][i] = t[p]) THEN <<<<p + 1, g>>>> ELSE <<>>
      [] e[1] = "cat" -> RMCat(e[3], t, RM(e[2], t, p, g))
      [] e[1] = "alt" -> RM(e[2], t, p, g) \o RM(e[3], t, p, g)
      [] e[1] = "star" -> RMStar(e[2], t, p, g)
      [] e[1] = "plus" -> RMCat(<<"star", e[2]>>, t, RM(e[2], t, p, g))
      [] e[1] = "opt" -> RM(e[2], t, p, g) \o <<<<p, g>>>>
      [] e[1] = "grp" -> LET ms == RM(e[3], t, p, g)
                         IN  [i \in 1..Len(ms) |-> <<ms[i][1], [ms[i][2] EXCEPT ![e[2]] = <<p, ms[i][1]>>]>>]
      [] e[1] = "bol" -> IF p = 1 \/ t[p - 1] = 10 THEN <<<<p, g>>>> ELSE <<>>
      [] e[1] = "eol" -> IF p = Len(t) + 1 \/ t[p] = 10 THEN <<<<p, g>>>> ELSE <<>>
Nullable(e) ==
    CASE e[1] \in {"ch", "any", "set", "not"} -> FALSE
      [] e[1] = "cat" -> Nullable(e[2]) /\ Nullable(e[3])
      [] e[1] = "alt" -> Nullable(e[2]) \/ Nullable(e[3])
      [] e[1] \in {"star", "opt", "bol", "eol"} -> TRUE
      [] e[1] = "plus" -> Nullable(e[2])
      [] e[1] = "grp" -> Nullable(e[3])
ReText(e) ==
    CASE e[1] = "ch" -> <<e[2]>>
      [] e[1] = "any" -> <<46>>
      [] e[1] = "set" -> <<91>> \o e[2] \o <<93>>
      [] e[1] = "not" -> <<91, 94>> \o e[2] \o <<93>>
      [] e[1] = "cat" -> ReText(e[2]) \o ReText(e[3])
      [] e[1] = "alt" -> ReText(e[2]) \o <<124>> \o ReText(e[3])
      [] e[1] = "star" -> ReText(e[2]) \o <<42>>
      [] e[1] = "plus" -> ReText(e[2]) \o <<43>>
      [] e[1] = "opt" -> ReText(e[2]) \o <<63>>
      [] e[1] = "grp" -> <<40>> \o ReText(e[3]) \o <<41>>
      [] e[1] = "bol" -> <<94>>
      [] e[1] = "eol" -> <<36>>
Groups(e) == CASE e[1] \in {"cat", "alt"} -> Groups(e[2]) + Groups(e[3]) [] e[1] \in {"star", "plus", "opt"} -> Groups(e[2])
               [] e[1] = "grp" -> 1 + Groups(e[3]) [] OTHER -> 0
G0(e) == [i \in 1..Groups(e) |-> <<1, 1>>]
RECURSIVE SearchFrom(_, _, _)
(* the leftmost match: <<from, end, groups>>, <<>> if none *)
SearchFrom(e, t, p) ==
    IF p > Len(t) + 1 THEN <<>>
    ELSE LET ms == RM(e, t, p, G0(e)) IN
         IF ms # <<>> THEN <<p, ms[1][1], ms[1][2]>> ELSE SearchFrom(e, t, p + 1)
Pieces(t, m) == <<SubSeq(t, m[1], m[2] - 1)>> \o [i \in 1..Len(m[3]) |-> SubSeq(t, m[3][i][1], m[3][i][2] - 1)]
SearchOf(e, t) == LET m == SearchFrom(e, t, 1) IN IF m = <<>> THEN <<>> ELSE Pieces(t, m)
MatchOf(e, t) ==
    LET ms == RM(e, t, 1, G0(e))
        ok == {i \in 1..Len(ms) : ms[i][1] = Len(t) + 1}
        k == CHOOSE i \in ok : \A j \in ok : i <= j
    IN  IF ok = {} THEN <<>> ELSE Pieces(t, <<1, ms[k][1], ms[k][2]>>)
(* every match replaced; parts: bytes, or numbers of groups *)
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(e, parts, t, p) ==
    LET m == SearchFrom(e, t, p)
        g == Pieces(t, m)
    IN  IF m = <<>> THEN From(t, p)
        ELSE SubSeq(t, p, m[1] - 1)
             \o Concat([i \in 1..Len(parts) |-> IF parts[i][1] = "g" THEN g[parts[i][2] + 1] ELSE parts[i][2]])
             \o ReplaceFrom(e, parts, t, m[2])

(***************************************************************************)
(* On values: element by element on arrays and maps                        *)
(***************************************************************************)
RECURSIVE AllStr(_, _), NewLit(_, _, _, _), InPlace(_, _, _), Rebind(_, _, _, _)
AllStr(h, x) == IF ~IsRef(x) THEN FALSE
                ELSE IF IsStr(h, x) THEN ~HasU(h, x)
                ELSE AType(h, x[2]) \in {"v", "p"} /\ ~IsView(h, x) /\ \A i \in 0..Size(h, x) - 1 : AllStr(h, Item(h, x[2], i))
NoZero(h, x) == \A i \in Range(Dfs(h, <<x>>, <<>>)) : h[i].k = "a" /\ h[i].t = "c" => \A j \in 1..Len(h[i].e) : h[i].e[j] # 0
NoView(h, x) == \A i \in Range(Dfs(h, <<x>>, <<>>)) : h[i].k # "w"
StrArr(q) == IF q = <<>> THEN Nil ELSE <<"v", [i \in 1..Len(q) |-> Str(q[i])]>>
(* keys are shared with the original map *)
Leaf(f, e, t) == CASE f \in {"strip", "upper", "lower"} -> Str(Fun(f, t))
                   [] f = "search" -> StrArr(SearchOf(e, t))
                   [] f = "match" -> StrArr(MatchOf(e, t))
NewLit(h, x, f, e) ==
    IF IsStr(h, x) THEN Leaf(f, e, Codes(h, x))
    ELSE IF IsMap(h, x) THEN <<"m", [i \in 1..Size(h, x) |-> <<h[x[2]].e[i][1], NewLit(h, Item(h, x[2], i - 1), f, e)>>]>>
    ELSE <<"v", [i \in 1..Size(h, x) |-> NewLit(h, Item(h, x[2], i - 1), f, e)]>>
(* the strings themselves *)
InPlace(st, f, xs) ==
    IF xs = <<>> THEN st
    ELSE LET x == Head(xs)
             id == x[2]
             t == Fun(f, Codes(st.h, x))
             st2 == IF ~IsStr(st.h, x) THEN st
                    ELSE IF IsView(st.h, x)
                    THEN LET b == st.h[id].b
                             o == st.h[id].o
                         IN  [st EXCEPT !.h[b].e = [i \in 1..Len(@) |-> IF i > o /\ i <= o + Len(t) THEN t[i - o] ELSE @[i]]]
                    ELSE [st EXCEPT !.h[id].e = t]
         IN  InPlace(st2, f, (IF IsStr(st.h, x) THEN <<>> ELSE Items(st.h, x)) \o Tail(xs))
(* the slots that hold them *)
Rebind(st, e, parts, sls) ==
    IF sls = <<>> THEN st
    ELSE LET sl == Head(sls)
             x == Get(st, sl)
         IN  IF IsStr(st.h, x)
             THEN LET n == NewCell(st, Arr("c", ReplaceFrom(e, parts, Codes(st.h, x), 1)))
                  IN  Rebind(Put(n, sl, Last(n)), e, parts, Tail(sls))
             ELSE Rebind(st, e, parts, [i \in 1..Size(st.h, x) |-> <<"e", x[2], i - 1>>] \o Tail(sls))

TApply(st, op) ==
    LET o == op[1]
        x == st.v[op[2]]
        str == IsStr(st.h, x) /\ ~HasU(st.h, x)
        cstr == str /\ ~IsView(st.h, x) /\ NoZero(st.h, x)
        no == Skip(st)
        put(l, z) == LET b == Build(st, l) IN Assign(b.s, <<"x", z>>, b.x)
        \* Excluded: an array held by itself, twice, in place: it is done twice
        tree == AllStr(st.h, x)
    IN  CASE o = "tsplit" -> IF ~cstr THEN no ELSE put(<<"v", [i \in 1..Len(SplitBy(Codes(st.h, x), op[3], op[4])) |-> Str(SplitBy(Codes(st.h, x), op[3], op[4])[i])]>>, op[5])
          [] o = "twords" -> IF ~cstr THEN no ELSE put(StrArr(Words(Codes(st.h, x), op[3])), op[4])
          [] o = "tjoin" -> IF str THEN Assign(st, <<"x", op[4]>>, x)
                            ELSE IF ~tree \/ IsMap(st.h, x) THEN no
                            ELSE IF \E i \in 0..Size(st.h, x) - 1 : ~IsStr(st.h, Item(st.h, x[2], i)) THEN no
                            ELSE put(Str(JoinSep([i \in 1..Size(st.h, x) |-> Codes(st.h, Item(st.h, x[2], i - 1))], op[3])), op[4])
          [] o = "tfun" -> IF ~tree THEN no ELSE put(NewLit(st.h, x, op[3], <<>>), op[4])
          [] o = "tinto" -> \* into another variable
                            IF ~str \/ IsView(st.h, x) \/ IsView(st.h, st.v[op[4]]) THEN no
                            ELSE IF x = st.v[op[4]] THEN Done(InPlace(st, op[3], <<x>>))
                            ELSE put(Str(Fun(op[3], Codes(st.h, x))), op[4])
          [] o = "tin" -> IF ~tree THEN no
                          ELSE IF op[3] = "strip" /\ ~NoView(st.h, x) THEN no
                          ELSE IF op[3] = "strip" /\ \E i \in Range(Dfs(st.h, <<x>>, <<>>)) : Viewed(st, i, 0) THEN no
                          ELSE Done(InPlace(st, op[3], <<x>>))
          [] o = "tlen" -> IF str THEN Out(st, <<"q", Utf(Codes(st.h, x), 0)>>, "ok")
                           ELSE IF ~IsRef(x) \/ IsStr(st.h, x) THEN no ELSE Out(st, <<"q", Size(st.h, x)>>, "ok")
          [] o = "tre" -> IF ~tree \/ ~NoZero(st.h, x) \/ ~NoView(st.h, x) THEN no ELSE put(NewLit(st.h, x, op[4], op[6]), op[5])
          [] o = "trepl" -> IF ~tree \/ ~NoZero(st.h, x) \/ ~NoView(st.h, x) \/ Nullable(op[5]) THEN no
                            ELSE Done(Rebind(st, op[5], op[6], <<<<"x", op[2]>>>>))
TOps == {"tsplit", "twords", "tjoin", "tfun", "tinto", "tin", "tlen", "tre", "trepl"}

(***************************************************************************)
(* Generation                                                              *)
(***************************************************************************)
CONSTANT Alpha             \* "text" or "bytes"
TByte(st) == IF Alpha = "bytes" THEN Pick(<<65, 122, 91, 64, 96, 123, 32, 0, -61, -87, -30, -126, -84, -16, -97, -104, -128, -64, -1, -8, -2, 127, 9, -32, -96>>)
             ELSE Pick(<<97, 97, 98, 98, 99, 44, 44, 32, 32, 9, 10, 65, 45>>)
TStr(st) == Str([i \in 1..(IF MaxLen > 100 /\ Chance(3) THEN R(10..70) ELSE Pick(<<0, 1, 2, 3, 4, 5, 6, 9>>)) |-> TByte(st)])
RECURSIVE TTree(_, _)
TTree(st, d) ==
    LET k == R(1..6) IN
    IF d = 0 \/ k <= 2 THEN TStr(st)
    ELSE IF k <= 5 THEN <<"v", [i \in 1..Pick(<<0, 1, 2, 2, 3>>) |-> TTree(st, d - 1)]>>
    ELSE <<"m", [i \in 1..Pick(<<0, 1, 2>>) |-> <<IF i = 1 THEN <<"i", 3>> ELSE Str(<<98>>), TTree(st, d - 1)>>]>>
Sep(st) == Pick(<<<<44>>, <<32>>, <<97>>, <<44, 32>>, <<97, 98>>, <<97, 97>>, <<98, 97, 98>>, <<10>>>>)
RECURSIVE RReA(_, _), NumberGroups(_, _)
Atom(st) == Pick(<<<<"ch", 97>>, <<"ch", 98>>, <<"ch", 99>>, <<"any">>, <<"set", <<97, 98>>>>, <<"not", <<97, 44>>>>, <<"ch", 44>>, <<"ch", 32>>>>)
RReA(st, d) ==
    LET k == R(1..10) IN
    IF d = 0 \/ k <= 3 THEN Atom(st)
    ELSE IF k <= 6 THEN <<"cat", RReA(st, d - 1), RReA(st, d - 1)>>
    ELSE IF k = 7 THEN <<Pick(<<"star", "plus", "opt">>), Atom(st)>>
    ELSE IF k = 8 THEN <<"grp", 0, <<"alt", RReA(st, d - 1), RReA(st, d - 1)>>>>
    ELSE <<"grp", 0, RReA(st, d - 1)>>
NumberGroups(e, n) ==      \* groups are numbered by their opening brackets
    CASE e[1] \in {"cat", "alt"} -> <<e[1], NumberGroups(e[2], n), NumberGroups(e[3], n + Groups(e[2]))>>
      [] e[1] \in {"star", "plus", "opt"} -> <<e[1], NumberGroups(e[2], n)>>
      [] e[1] = "grp" -> <<"grp", n, NumberGroups(e[3], n + 1)>>
      [] OTHER -> e
(* many groups in a row *)
RECURSIVE RMany(_, _)
RMany(st, n) ==
    LET a == <<"grp", 0, IF Chance(4) THEN Atom(st) ELSE <<"opt", <<"ch", Pick(<<97, 98, 99, 44>>)>>>>>> IN
    IF n = 1 THEN a ELSE <<"cat", a, RMany(st, n - 1)>>
RRe(st) == LET e == IF Chance(10) THEN RMany(st, R(7..12)) ELSE RReA(st, R(0..3))
               k == R(1..8)
           IN  NumberGroups(IF k = 1 THEN <<"cat", <<"bol">>, e>> ELSE IF k = 2 THEN <<"cat", e, <<"eol">>>> ELSE e, 1)
Parts(st, e) == [i \in 1..R(0..2) |-> IF Groups(e) > 0 /\ Chance(2) THEN <<"g", R(1..(IF Groups(e) > 9 THEN 9 ELSE Groups(e)))>>
                                      ELSE IF Chance(4) THEN <<"g", 0>> ELSE <<"t", Pick(<<<<120>>, <<97>>, <<45, 45>>, <<>>>>)>>]
(* how they are spelt in a format *)
PartsText(ps) == Concat([i \in 1..Len(ps) |-> IF ps[i][1] = "g" THEN (IF ps[i][2] = 0 THEN <<36, 38>> ELSE <<36, 48 + ps[i][2]>>) ELSE ps[i][2]])

TOp(st, c) ==
    LET x == R(Vars)
        z == R(Vars)
        f == R({"strip", "upper", "lower"})
    IN  CASE c = "tset" -> <<"set", x, <<>>, <<"L", IF Chance(2) THEN TStr(st) ELSE TTree(st, 3)>>>>
          [] c = "tput" -> <<"set", x, RPath(st, st.v[x], 2), <<"L", TTree(st, 1)>>>>
          [] c = "tsplit" -> <<"tsplit", x, Sep(st), Pick(<<0, 0, 0, 1, 2, 3>>), z>>
          [] c = "twords" -> <<"twords", x, Pick(<<0, 0, 2, 3>>), z>>
          [] c = "tjoin" -> <<"tjoin", x, IF Chance(4) THEN <<>> ELSE Sep(st), z>>
          [] c = "tfun" -> <<"tfun", x, f, z>>
          [] c = "tinto" -> <<"tinto", x, f, z>>
          [] c = "tin" -> <<"tin", x, f>>
          [] c = "tlen" -> <<"tlen", x>>
          [] c = "tre" -> LET e == RRe(st) IN <<"tre", x, ReText(e), Pick(<<"search", "search", "match">>), z, e>>
          [] c = "trepl" -> LET e == RRe(st)
                                p == Parts(st, e)
                            IN  <<"trepl", x, ReText(e), PartsText(p), e, p>>
          [] OTHER -> GenOp(st, c)
TCats == IF Alpha = "bytes"
         THEN <<"tset", "tset", "tset", "tset", "tput", "tlen", "tlen", "tlen", "tlen", "tfun", "tfun", "tin", "tin", "tinto", "share", "copy", "store", "view", "tjoin">>
         ELSE <<"tset", "tset", "tset", "tput", "tsplit", "tsplit", "tsplit", "twords", "twords", "tjoin", "tjoin", "tjoin", "tfun", "tin", "tinto", "tre", "tre", "tre", "tre",
                "trepl", "trepl", "trepl", "share", "copy", "store", "get">>
TNext == /\ Len(hist) < Depth
         /\ \E op \in {TOp(s, Pick(TCats))} :
            IF op[1] \in TOps
            THEN \E a \in {TApply(s, op)} :
                 IF a.ok = "skip" \/ ~InBounds(a.s) THEN UNCHANGED <<s, hist, last>>
                 ELSE \E t \in {Canon(a.s)} :
                      /\ s' = t /\ last' = op
                      /\ hist' = Append(hist, <<IF op[1] \in {"tre", "trepl"} THEN SubSeq(op, 1, IF op[1] = "tre" THEN 5 ELSE 4) ELSE op, a.ok, ResOf(a), Obs(t), FALSE>>)
            ELSE \E a \in {Step(s, op)} :
                 IF a.a.ok = "skip" \/ ~InBounds(a.t) THEN UNCHANGED <<s, hist, last>>
                 ELSE /\ s' = a.t /\ last' = op
                      /\ hist' = Append(hist, <<op, a.a.ok, ResOf(a.a), Obs(a.t), a.drop>>)
         /\ IF Len(hist') = Depth /\ hist' # hist THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* In the model: join inverts split                                        *)
(***************************************************************************)
HeldTexts == {Codes(s.h, s.v[x]) : x \in {y \in Vars : IsStr(s.h, s.v[y]) /\ ~HasU(s.h, s.v[y])}}
JoinSplit == \A t \in HeldTexts : \A sep \in {<<44>>, <<97>>, <<97, 98>>, <<97, 97>>} : \A n \in 0..3 :
                 /\ JoinSep(SplitBy(t, sep, n), sep) = t
                 /\ n > 0 => Len(SplitBy(t, sep, n)) <= n
                 /\ n = 0 => \A i \in 1..Len(SplitBy(t, sep, 0)) : FindSep(SplitBy(t, sep, 0)[i], sep, 1) = 0
Strips == \A t \in HeldTexts : StripOf(StripOf(t)) = StripOf(t) /\ LowerOf(UpperOf(t)) = LowerOf(t)
=============================================================================
