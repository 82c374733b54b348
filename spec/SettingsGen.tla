----------------------------- MODULE SettingsGen -----------------------------
(***************************************************************************)
(* Generation of histories of configuration and of command lines           *)
(***************************************************************************)
EXTENDS Settings, StoreGen
CONSTANT MaxN
VARIABLE g

GNone == [cf |-> [k \in 1..2 |-> None], op |-> <<>>]
CInit == /\ s = Empty(NV + 2) /\ hist = <<>> /\ last = <<>> /\ g = GNone

SName(st) == Pick(<<<<>>, <<65>>, <<65>>, <<65>>, <<66>>, <<66>>, <<65, 32, 66>>, <<32, 65>>, <<91>>, <<97>>>>)
SLit(st) == IF Chance(6) THEN Nil ELSE Str(SName(st))
CKeyT(st) == Pick(<<<<107>>, <<107>>, <<107>>, <<108>>, <<108>>, <<107, 32, 107>>, <<75>>, <<120, 46, 121>>, <<>>>>)
CKey(st) == Str(CKeyT(st))
VText(st) == Pick(<<<<49>>, <<45, 51>>, <<50, 46, 53>>, <<49, 48, 48>>, <<>>, <<97, 98>>, <<120>>, <<97, 32, 98>>, <<97, 61, 98>>, <<58, 61>>, <<34, 97, 34>>, <<49, 32, 59, 99>>, <<45>>, <<49, 101, 50>>, <<-61, -87>>>>)
Pad(st) == Pick(<<<<>>, <<>>, <<>>, <<32>>, <<9>>, <<32, 32>>, <<13>>, <<11, 32>>>>)
ILine(st) ==
    LET k == R(1..20) IN
    IF k <= 11 THEN Pad(st) \o (LET t == CKeyT(st) IN IF t = <<>> THEN <<107>> ELSE t) \o Pad(st) \o (IF Chance(4) THEN <<58>> ELSE <<61>>) \o Pad(st) \o VText(st) \o Pad(st)
    ELSE IF k <= 15 THEN Pad(st) \o <<91>> \o SName(st) \o <<93>> \o Pick(<<<<>>, <<>>, <<32>>, <<120>>, <<32, 59>>, <<61>>, <<93>>>>)
    ELSE IF k = 16 THEN Pad(st)
    ELSE IF k = 17 THEN Pad(st) \o <<59>> \o VText(st)
    ELSE IF k = 18 THEN Pad(st) \o <<35, 107, 61, 49>>
    ELSE IF k = 19 /\ Chance(3) THEN Pick(<<<<91, 65>>, <<107>>, <<107, 32, 49>>, <<91>>, <<93>>, <<64>>, <<32, 107, 32, 59, 61>>, <<97, 98, 99, 0, 61, 49>>>>)
    ELSE <<107>> \o <<61>> \o [i \in 1..Pick(<<62, 63, 64, 126, 127, 128, 200>>) |-> 97 + (i % 26)]
RECURSIVE IText(_, _)
IText(st, n) == IF n = 0 THEN (IF Chance(2) THEN <<>> ELSE ILine(st)) ELSE ILine(st) \o <<10>> \o IText(st, n - 1)
ODesc(st) == Pick(<<<<102, 108, 97, 103>>, <<97, 32, 98>>, <<>>, <<91, 93>>>>)
OChar(st) == Pick(<<97, 97, 98, 98, 99, 110, 86, 48, 101, 65>>)
ODef(st) == Pick(<<Nil, Nil, Nil, <<"i", 0>>, <<"i", 3>>, <<"d", 6>>, Str(<<>>), Str(<<120, 32, 121>>), <<"l", -7>>>>)
OWord(st) == Pick(<<<<120>>, <<120, 121>>, <<>>, <<45>>, <<45, 45, 120>>, <<97>>, <<61>>, <<45, 49>>, <<102, 32, 103>>, <<-61>>>>)
OArg(st, decl) ==     \* one or two arguments, made of what is declared
    LET k == R(1..16)
        ch == IF decl # <<>> /\ ~Chance(25) THEN decl[R(1..Len(decl))][1] ELSE OChar(st)
        flags == SelectSeq(decl, LAMBDA d : ~d[2])
        f == IF flags = <<>> THEN ch ELSE flags[R(1..Len(flags))][1]
        f2 == IF flags = <<>> THEN ch ELSE flags[R(1..Len(flags))][1]
        plain == IF Chance(6) THEN OWord(st) ELSE Pick(<<<<102>>, <<103, 104>>, <<45>>, <<>>, <<120, 45, 97>>>>)
    IN  IF k <= 5 THEN <<plain>>
        ELSE IF k <= 9 THEN IF TakesArg(decl, ch) THEN (IF Chance(2) THEN <<<<45, ch>>, OWord(st)>> ELSE <<<<45, ch>> \o Pick(<<<<120>>, <<97>>, <<45>>, <<61, 53>>, <<32>>>>)>>)
                            ELSE <<<<45, ch>>>>
        ELSE IF k <= 12 THEN <<<<45, f, f2>>>>
        ELSE IF k <= 14 THEN IF TakesArg(decl, ch) THEN <<<<45, f, ch>>, OWord(st)>> ELSE <<<<45, f, ch>>>>
        ELSE IF k = 15 /\ Chance(3) THEN <<<<45, 45>>>>
        ELSE IF Chance(2) THEN <<<<45, ch>>>> ELSE <<plain>>
RECURSIVE OArgs(_, _, _)
OArgs(st, decl, n) == IF n = 0 THEN <<>> ELSE OArg(st, decl) \o OArgs(st, decl, n - 1)
ODecl1(gg) == IF gg.op = <<>> THEN <<>> ELSE gg.op[1].decl
Prog == <<112, 47, 113>>
(* Excluded: a live reference into the map that is changed *)
Dead(src) == IF src[1] \in {"P", "A"} /\ src[3] # <<>> THEN <<"C", src[2], src[3]>> ELSE src
CSrc(st) == LET k == R(1..6) IN IF k <= 3 THEN <<"L", IF Chance(3) THEN RLit(st) ELSE Str(VText(st))>> ELSE Dead(RSrc(st))
CDefault(st) == LET t == R({"i", "l", "f", "d"}) IN <<t, R(-20..20)>>

CGenOp(st, gg, c) ==
    LET x == R(Vars)
        k == R(1..2)
        decl == ODecl1(gg)
    IN  CASE c = "cnew" -> <<"cnew", k, SLit(st)>>
          [] c = "csec" -> <<"csec", k, SLit(st), x>>
          [] c = "cfile" -> <<"cfile", k, IText(st, R(0..6))>>
          [] c = "clost" -> <<"clost", k>>
          [] c = "cset" -> <<"cset", k, CKey(st), CSrc(st)>>
          [] c = "cget" -> <<"cget", k, CKey(st), x>>
          [] c = "ctyped" -> <<"ctyped", k, CKey(st), x, CDefault(st)>>
          [] c = "cstr" -> <<"cstr", k, CKey(st), Pick(<<<<>>, <<100>>, <<97, 98, 99>>>>)>>
          [] c = "iread" -> <<"iread", IText(st, R(0..8)), x>>
          [] c = "onew" -> <<"onew", ODesc(st)>>
          [] c = "odecl" -> <<"odecl", OChar(st), ODesc(st), IF Chance(8) THEN Dead(RSrc(st)) ELSE <<"L", ODef(st)>>>>
          [] c = "oline" -> <<"oline", ODesc(st)>>
          [] c = "oparse" -> LET a == OArgs(st, decl, R(0..5)) IN
                             IF Refused(Scan(decl, a, <<>>, <<>>).ev) THEN <<"obad", Prog, a>> ELSE <<"oparse", Prog, a, x>>
          [] c = "oargs" -> <<"oargs", x>>
          [] c = "oget" -> <<"oget", IF decl # <<>> /\ ~Chance(4) THEN decl[R(1..Len(decl))][1] ELSE OChar(st), x>>
          [] c = "ousage" -> <<"ousage">>
          [] c = "oloop" -> LET d == IF decl # <<>> /\ Chance(2) THEN decl ELSE Pick(<<<<<<97, FALSE>>, <<98, TRUE>>>>, <<>>, <<<<97, FALSE>>>>, <<<<97, TRUE>>, <<99, FALSE>>, <<98, FALSE>>>>>>) IN
                            <<"oloop", d, OArgs(st, d, R(0..5)), Pick(<<9, 9, 0, 1, 2, 3>>), x>>
          [] OTHER -> GenOp(st, c)
CCats == IF Profile = "config"
         THEN <<"cnew", "cnew", "csec", "csec", "cfile", "cfile", "cfile", "cfile", "clost", "cset", "cset", "cset", "cset", "cset", "cget", "cget", "cget", "cget", "cget",
                "ctyped", "ctyped", "ctyped", "ctyped", "cstr", "cstr", "iread", "iread", "iread", "store", "push", "nil", "lit", "copy", "set"     >>
         ELSE <<"onew", "odecl", "odecl", "odecl", "odecl", "odecl", "oline", "oparse", "oparse", "oparse", "oparse", "oparse", "oparse", "oargs", "oargs", "oargs", "oargs",
                "oget", "oget", "oget", "ousage", "oloop", "oloop", "store", "nil", "lit", "copy">>
CCats1 == SelectSeq(CCats, LAMBDA c : c # "set")

CStepOf(st, gg, op) ==
    IF op[1] \in COps
    THEN LET a == CApply(st, gg, op) IN
         IF a.ok = "skip" THEN [ok |-> "skip", s |-> st, g |-> gg, r |-> <<>>]
         ELSE IF ~Acyclic(a.s.h) THEN [ok |-> "skip", s |-> st, g |-> gg, r |-> <<>>]
         ELSE IF \E i \in 1..Len(a.s.h) : a.s.h[i].k = "m" /\ ~SortedMap(a.s.h, a.s.h[i]) THEN [ok |-> "skip", s |-> st, g |-> gg, r |-> <<>>]
         ELSE [ok |-> a.ok, s |-> Canon(a.s), g |-> a.g, r |-> a.r]
    ELSE LET a == Step(st, op) IN [ok |-> a.a.ok, s |-> a.t, g |-> gg, r |-> ResOf(a.a)]
CNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {CGenOp(s, g, IF g.cf = GNone.cf /\ Profile = "config" THEN "cnew" ELSE IF g.op = <<>> /\ Profile = "option" /\ Chance(2) THEN "onew" ELSE Pick(CCats1))} :
       \E q \in {CStepOf(s, g, op)} :
         IF q.ok = "skip" \/ ~InBounds(q.s) THEN UNCHANGED <<s, g, hist, last>>
         ELSE /\ s' = q.s /\ g' = q.g /\ last' = op
              /\ hist' = Append(hist, <<op, q.ok, q.r, CObs(q.s), FALSE>>)
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Exhaustive: every short ini text over a small alphabet; every short     *)
(* command line over a small alphabet of arguments                         *)
(***************************************************************************)
RECURSIVE CRun(_, _, _, _)
CRun(st, gg, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == CStepOf(st, gg, Head(os)) IN
         IF q.ok = "skip" THEN CRun(st, gg, Tail(os), acc)
         ELSE CRun(q.s, q.g, Tail(os), Append(acc, <<Head(os), q.ok, q.r, CObs(q.s), FALSE>>))
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
AtFirst == s = Empty(NV + 2) /\ hist = <<>> /\ g = GNone
IniChars == {97, 61, 58, 91, 93, 59, 32, 10}
IniInit == last \in Seqs(IniChars, MaxN - 1) /\ AtFirst
IniOps(t) == <<<<"cnew", 1, Str(<<97>>)>>, <<"csec", 1, Nil, 1>>, <<"cnew", 1, Str(<<>>)>>>>
             \o Concat([i \in 1..8 |-> LET u == t \o <<<<97, 61, 58, 91, 93, 59, 32, 10>>[i]>> IN <<<<"iread", u, 1>>, <<"cfile", 1, u>>, <<"cget", 1, Str(<<97>>), 2>>>>])
Args1 == {<<45, 97>>, <<45, 98>>, <<45, 97, 98>>, <<45, 98, 97>>, <<120>>, <<45, 45>>, <<45>>, <<45, 97, 97>>, <<>>}
OptInit == last \in {<<d, a>> : d \in {<<<<97, FALSE>>, <<98, TRUE>>>>, <<<<97, FALSE>>, <<98, FALSE>>>>, <<<<97, TRUE>>, <<98, TRUE>>>>}, a \in Seqs(Args1, MaxN)} /\ AtFirst
OptOps(d, a) == <<<<"onew", <<110>>>>>> \o [i \in 1..Len(d) |-> <<"odecl", d[i][1], <<100>>, <<"L", IF d[i][2] THEN Str(<<48>>) ELSE Nil>>>>]
                \o <<<<"oparse", Prog, a, 1>>, <<"oargs", 2>>, <<"oloop", d, a, 1, 2>>, <<"oloop", d, a, 9, 2>>>>
CAll(ops) == /\ last # <<0>>
             /\ hist' = CRun(s, g, ops, <<>>)
             /\ last' = <<0>> /\ UNCHANGED <<s, g>>
             /\ PrintT("T" \o ToJson(hist'))
IniAll == last # <<0>> /\ CAll(IniOps(last))
OptAll == last # <<0>> /\ CAll(OptOps(last[1], last[2]))

(***************************************************************************)
(* In the model: a lookup gives what was last given                        *)
(***************************************************************************)
RECURSIVE LastGiven(_, _, _, _, _)
(* going back through the history: what the key was given; cf: sections of *)
(* the objects at each point are the ones of the history                   *)
SecAt(n, k) == LET m == {i \in 1..n : hist[i][1][1] \in {"cnew", "csec"} /\ hist[i][1][2] = k} IN
               IF m = {} THEN None ELSE SecOf(hist[CHOOSE i \in m : \A j \in m : j <= i][1][3])
LastGiven(n, sec, key, lo, dummy) ==
    IF n = 0 THEN None
    ELSE LET h == hist[n] IN
         IF h[1][1] = "cfile" /\ h[2] = "ok"
         THEN LET q == Ini(h[1][3]).x
                  m == {i \in 1..Len(q) : q[i][1] = sec /\ q[i][2] = key}
              IN  IF m = {} THEN LastGiven(n - 1, sec, key, lo, dummy) ELSE q[CHOOSE i \in m : \A j \in m : j <= i][3]
         ELSE IF h[1][1] = "cset" /\ h[2] = "ok" /\ h[1][3] = Str(key) /\ SecAt(n, h[1][2]) = sec
         THEN <<-2000>> ELSE LastGiven(n - 1, sec, key, lo, dummy)
(* sections handed out can be changed by the program: not then *)
Wins == LET handed == \E i \in 1..Len(hist) : hist[i][1][1] = "csec" IN
        handed \/ \A sec \in {<<>>, <<65>>, <<66>>} : \A key \in {<<107>>, <<108>>} :
        LET w == LastGiven(Len(hist), sec, key, 0, 0)
            f == Found(s, sec, Str(key))
        IN  IF w = None THEN ~f.has ELSE IF w = <<-2000>> THEN f.has ELSE f.has /\ IsStr(s.h, f.x) /\ (Codes(s.h, f.x) = w \/ \E i \in 1..Len(hist) : hist[i][1][1] = "cget")
=============================================================================
