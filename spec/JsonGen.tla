------------------------------ MODULE JsonGen ------------------------------
(***************************************************************************)
(* Generation of programs that write values as JSON and read them back,    *)
(* and that read texts: well-formed ones with any white space, truncated   *)
(* ones, ones with a broken word.                                          *)
(***************************************************************************)
EXTENDS StoreGen, JsonText
VARIABLE q

Byte(st) == Pick(<<97, 98, 32, 34, 34, 92, 92, 92, 10, 9, 13, 0, 1, 127, -61, -87, -1, 47, 91, 93, 123, 125, 44, 58, 39, 117, 110, 48>>)
JStr(st) == Str([i \in 1..Pick(<<0, 1, 1, 2, 3, 6, IF Chance(4) THEN R(7..80) ELSE 2>>) |-> Byte(st)])
JInt(st) == Pick(<<0, 1, -1, 7, 10, -128, 65536, 9999999, -1234567>>)
JReal(st) == Pick(<<1, 2, 3, -1, -6, 4, 0, 10, 3999, -400, 100>>)
JNum(st) == LET t == R({"i", "l", "f", "d"}) IN <<t, IF t \in {"i", "l"} THEN JInt(st) ELSE JReal(st)>>
JWide(st) == IF Chance(8) THEN <<"l", R(500000001..500000005) * Pick(<<1, -1>>)>> ELSE JNum(st)
RECURSIVE JLit(_, _)
JLit(st, d) ==
    LET k == R(1..14) IN
    IF d = 0 \/ k <= 3 THEN (IF Chance(5) THEN Nil ELSE JWide(st))
    ELSE IF k <= 6 THEN JStr(st)
    ELSE IF k <= 8 THEN LET t == R({"i", "l", "f", "d"}) IN
                        <<"a", t, [i \in 1..Pick(<<0, 1, 1, 2, 3, IF Chance(4) THEN R(4..40) ELSE 2>>) |-> IF t \in {"i", "l"} THEN JInt(st) ELSE JReal(st)]>>
    ELSE IF k <= 11 THEN <<"v", [i \in 1..Pick(<<0, 1, 1, 2, 3>>) |-> JLit(st, d - 1)]>>
    ELSE <<"m", [i \in 1..Pick(<<0, 1, 1, 2, 3>>) |-> <<Str([j \in 1..i - 1 |-> Byte(st)] \o <<96 + i>>), JLit(st, d - 1)>>]>>
(* booleans exist in texts only *)
RECURSIVE TLit(_, _)
TLit(st, d) ==
    LET k == R(1..14) IN
    IF d = 0 \/ k <= 3 THEN (IF Chance(4) THEN <<"b", Chance(2)>> ELSE IF Chance(5) THEN Nil ELSE JNum(st))
    ELSE IF k <= 6 THEN JStr(st)
    ELSE IF k <= 10 THEN <<"v", [i \in 1..Pick(<<0, 1, 1, 2, 3>>) |-> TLit(st, d - 1)]>>
    ELSE <<"m", [i \in 1..Pick(<<0, 1, 1, 2, 3>>) |-> <<IF Chance(8) THEN Str(<<97>>) ELSE Str([j \in 1..i - 1 |-> Byte(st)] \o <<96 + i>>), TLit(st, d - 1)>>]>>
Ws(n) == Pick(<<<<>>, <<>>, <<>>, <<32>>, <<10>>, <<9>>, <<32, 32>>, <<13, 10>>, <<11>>, <<12, 32>>>>)
WsS(n) == Pick(<<<<32>>, <<10>>, <<9>>, <<32, 32>>, <<13, 10>>>>)
NumTexts == <<"0", "-1", "12", "1.5", "-0.25", "25e-2", "1e2", "1E+1", "2.5e1", "100.0", "0.0", "0e1", "-7.75", "123456.5", "2E0", "10e-1", ".5", "-.25", "5.", "+3", "007", "-0.5", "+.5", "1.e1", "-0", "00.75">>
BadWords == <<"tru", "nul", "truex", "falsee", "True", "a", "1a", "1-2", "-", "--1", "1.2.3", "1e", "e5", "1e+", "?", "!", "'a'", "@1", "&", "null_", "12_3", "\\">>
Text1(st) ==
    LET k == R(1..12) IN
    IF k <= 6 THEN LET l == TLit(st, Pick(<<0, 1, 2, 2, 3, 5>>)) IN IF Chance(2) THEN Fmt(l, "any") ELSE Fmt(l, "tight")
    ELSE IF k <= 8 THEN B(Pick(NumTexts))
    ELSE IF k = 9 THEN B(Pick(BadWords))
    ELSE IF k = 10 THEN <<91>> \o Ws(1) \o B(Pick(NumTexts)) \o <<44>> \o Ws(2) \o B(IF Chance(2) THEN Pick(NumTexts) ELSE Pick(BadWords)) \o Ws(3) \o <<93>>
    ELSE IF k = 11 THEN B("{\"k\":") \o B(IF Chance(2) THEN Pick(NumTexts) ELSE Pick(BadWords)) \o Ws(1) \o <<125>>
    ELSE <<>>
Text2(st) ==
    LET t == Ws(1) \o Text1(st)
        n == Len(t)
        k == R(1..6)
    IN  IF k <= 3 THEN t ELSE IF k = 4 THEN SubSeq(t, 1, R(0..n))
        ELSE IF k = 5 THEN t \o <<10>> ELSE t \o WsS(2) \o Text1(st)
Canon1 == <<"9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649", "4294967296", "123456789012345678",
            "0.1", "1.23457", "-0.001", "123.456", "1e+20", "1.5e-07", "3.14159", "1e-300", "1.79e+308",
            "{}", "\"\"", "\"\\\"\\\\\"", "null", "1", "-3", "2.5", "[1]", "[1, 2]", "[0.5]", "\"a b\"", "\"/\"">>

JOp(st, c) ==
    LET x == R(Vars)
        z == R(Vars)
    IN  CASE c = "jlit" -> <<"set", x, <<>>, <<"L", JLit(st, Pick(<<1, 2, 3, 3, 4, 5>>))>>>>
          [] c = "jput" -> <<"set", x, RPath(st, st.v[x], 2), <<"L", JLit(st, 1)>>>>
          [] c = "jmput" -> <<"set", x, <<K(JStr(st))>>, <<"L", JLit(st, 1)>>>>
          [] c = "jtext" -> <<"jtext", Text2(st)>>
          [] c = "jwrite" -> <<"jwrite", x, IF Chance(3) THEN <<>> ELSE WsS(1)>>
          [] c = "jread" -> <<"jread", z>>
          [] c = "jrest" -> <<"jrest">>
          [] c = "jround" -> <<"jround", x, z>>
          [] c = "jcanon" -> <<"jcanon", B(Pick(Canon1))>>
          [] OTHER -> GenOp(st, c)
JCats == CASE Profile = "write" -> <<"jlit", "jlit", "jlit", "jput", "jput", "jmput", "share", "store", "copy", "push", "lit", "jround", "jround", "jround",
                                     "jround", "jwrite", "jwrite", "jread", "jread", "jread", "jcanon">>
           [] Profile = "read" -> <<"jtext", "jtext", "jtext", "jtext", "jtext", "jtext", "jtext", "jread", "jread", "jread", "jread",
                                    "jread", "jread", "jread", "jread", "jrest", "jrest", "share", "jcanon">>

JInit == Init /\ q = <<"t", <<>>>>
JNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {JOp(s, Pick(JCats))} :
       IF op[1] \in JOps
       THEN \E a \in {JApply(s, q, op)} :
            IF a.ok = "skip" \/ ~InBounds(a.s) THEN UNCHANGED <<s, q, hist, last>>
            ELSE \E t \in {Canon(a.s)} :
                 /\ s' = t /\ q' = a.q /\ last' = op
                 /\ hist' = Append(hist, <<op, a.ok, a.r, Obs(t), FALSE>>)
                 /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE
       ELSE \E a \in {Step(s, op)} :
            IF a.a.ok = "skip" \/ ~InBounds(a.t) THEN UNCHANGED <<s, q, hist, last>>
            ELSE /\ s' = a.t /\ q' = q /\ last' = op
                 /\ hist' = Append(hist, <<op, a.a.ok, ResOf(a.a), Obs(a.t), a.drop>>)
                 /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* In the model: writing and reading back gives the value (C10), every     *)
(* proper prefix of a bracketed or quoted text is refused, and what        *)
(* follows is left (C11)                                                   *)
(***************************************************************************)
(* of the values written and read in this behaviour *)
RoundTrip == \A x \in Vars : Plain(s.h, s.v[x]) =>
    LET l == Norm(s.h, s.v[x])
        t == Fmt(l, "none")
        r == PVal(t \o <<32, 49>>)
        again == Build(Empty(1), l)
    IN  /\ r.k = "ok" => r.p = <<32, 49>>
        /\ r.k = "ok" => Norm(again.s.h, again.x) = l
        /\ r.k = "ok" => LET b == Build(Empty(1), r.l) IN Norm(b.s.h, b.x) = l
        /\ r.k # "throw"
Prefixes == \A x \in Vars : Plain(s.h, s.v[x]) /\ IsRef(s.v[x]) =>
    LET t == Fmt(Norm(s.h, s.v[x]), "none") IN
    \A n \in 0..Len(t) - 1 : PVal(SubSeq(t, 1, n)).k # "ok"
=============================================================================
