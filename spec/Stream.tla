------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Streams on variables.  The value stream k is on is variable NV + k of   *)
(* the store (it is a holder like any other); pos[k] is its read position, *)
(* -1 when there is no stream.  Every operation first clears the state of  *)
(* the stream and answers what it read, and whether it is then at end of   *)
(* file, and failed.                                                       *)
(***************************************************************************)
EXTENDS StoreGen, Text
CONSTANT NS                  \* number of streams
VARIABLE pos

SV(k) == NV + k
(* the bytes stream k is on *)
Bytes(st, k) == Codes(st.h, st.v[SV(k)])
Rest(st, k, p) == SubSeq(Bytes(st, k), p[k] + 1, Size(st.h, st.v[SV(k)]))
RECURSIVE SpanNot(_, _), SpanIn(_, _)
SpanNot(t, S) == IF t = <<>> \/ Head(t) \in S THEN 0 ELSE 1 + SpanNot(Tail(t), S)
SpanIn(t, S) == IF t = <<>> \/ Head(t) \notin S THEN 0 ELSE 1 + SpanIn(Tail(t), S)
RECURSIVE Take(_, _)
Take(t, n) == SubSeq(t, 1, IF n < Len(t) THEN n ELSE Len(t))

SApply(st, p, op) ==
    LET o == op[1]
        k == op[2]
        keep == [s |-> st, p |-> p, ok |-> "ok", r |-> <<>>]
        no == [keep EXCEPT !.ok = "skip"]
        n == Size(st.h, st.v[SV(k)])
        t == Rest(st, k, p)
        \* read m bytes: what is answered, end of file, failure
        rd(m, ans, eof, fail) == [keep EXCEPT !.p[k] = @ + m, !.r = <<"q", ans, BoolN(eof), BoolN(fail)>>]
        write(q) == IF IsView(st.h, st.v[SV(k)]) THEN [keep EXCEPT !.r = <<"q", <<>>, 0, BoolN(q # <<>>)>>]
                    ELSE [keep EXCEPT !.s.h[st.v[SV(k)][2]].e = @ \o q, !.r = <<"q", <<>>, 0, 0>>]
    IN  IF o = "sopen"
        THEN LET x == st.v[op[3]] IN
             IF IsNil(x) THEN LET c == NewCell(st, Arr("c", <<>>)) IN [keep EXCEPT !.s = [c EXCEPT !.v[SV(k)] = Last(c)], !.p[k] = 0]
             ELSE IF ~IsRef(x) /\ x[1] = "c"       \* not shared: a character is a value
             THEN LET c == NewCell(st, Arr("c", <<x[2]>>)) IN [keep EXCEPT !.s = [c EXCEPT !.v[SV(k)] = Last(c)], !.p[k] = 0]
             ELSE IF ~IsStr(st.h, x) THEN no
             ELSE [keep EXCEPT !.s.v[SV(k)] = x, !.p[k] = 0]
        ELSE IF p[k] < 0 THEN no
        ELSE IF o = "sclose" THEN [keep EXCEPT !.s.v[SV(k)] = Nil, !.p[k] = -1]
        ELSE IF HasU(st.h, st.v[SV(k)]) THEN no
        ELSE CASE o = "sget" -> IF t = <<>> THEN rd(0, -1, TRUE, TRUE) ELSE rd(1, Head(t) % 256, FALSE, FALSE)
               [] o = "speek" -> IF t = <<>> THEN rd(0, -1, TRUE, FALSE) ELSE rd(0, Head(t) % 256, FALSE, FALSE)
               [] o = "sread" -> IF Len(t) < op[3] THEN rd(Len(t), t, TRUE, TRUE) ELSE rd(op[3], SubSeq(t, 1, op[3]), FALSE, FALSE)
               [] o = "sskip" -> IF Len(t) < op[3] THEN rd(Len(t), Len(t), TRUE, FALSE) ELSE rd(op[3], op[3], FALSE, FALSE)
               [] o = "sline" -> LET m == SpanNot(t, {10}) IN
                                 IF m = Len(t) THEN rd(m, t, TRUE, m = 0) ELSE rd(m + 1, SubSeq(t, 1, m), FALSE, FALSE)
               [] o = "sword" -> LET w == SpanIn(t, White)
                                     m == SpanNot(From(t, w + 1), White)
                                 IN  IF w = Len(t) THEN rd(w, <<>>, TRUE, TRUE)
                                     ELSE rd(w + m, SubSeq(t, w + 1, w + m), w + m = Len(t), FALSE)
               [] o = "srest" -> rd(Len(t), t, TRUE, FALSE)
               [] o = "sunget" -> \* not when the variable has shrunk below the position
                                  IF p[k] > n \/ p[k] = 0 THEN rd(0, <<>>, FALSE, TRUE) ELSE rd(-1, <<>>, FALSE, FALSE)
               [] o = "sputb" -> IF p[k] > n \/ p[k] = 0 THEN no ELSE rd(-1, Bytes(st, k)[p[k]], FALSE, FALSE)
               [] o = "sseek" -> IF op[3] > n \/ op[3] < 0 THEN rd(0, <<>>, FALSE, TRUE) ELSE rd(op[3] - p[k], <<>>, FALSE, FALSE)
               [] o = "sput" -> write(op[3])
               [] o = "swrite" -> write(op[3])
               [] o = "sfmt" -> write(IntText(op[3]))
               [] o = "svar" -> LET a == Assign(st, <<"x", op[3]>>, st.v[SV(k)]) IN
                                IF a.ok # "ok" THEN no ELSE [keep EXCEPT !.s = a.s]
SOps == {"sopen", "sclose", "sget", "speek", "sread", "sskip", "sline", "sword", "srest", "sunget", "sputb", "sseek", "sput", "swrite", "sfmt", "svar"}

SByte(st) == Pick(<<97, 98, 32, 10, 10, 9, 0, 127, -128, -1, -61, 13, 49, 92>>)
SLong == MaxLen > 100
SStr(st) == [i \in 1..(IF SLong /\ Chance(2) THEN R(9..80) ELSE Pick(<<0, 1, 1, 2, 3, 5, 8>>)) |-> SByte(st)]
SOp(st, p, c) ==
    LET k == R(1..NS)
        x == R(Vars)
        n == Size(st.h, st.v[SV(k)])
    IN  CASE c \in {"sget", "speek", "sline", "sword", "srest", "sunget", "sclose"} -> <<c, k>>
          [] c = "sopen" -> <<"sopen", k, x>>
          [] c \in {"sread", "sskip"} -> <<c, k, IF SLong /\ Chance(2) THEN R(0..90) ELSE R(0..5)>>
          [] c = "sputb" -> <<"sputb", k>>
          [] c = "sseek" -> <<"sseek", k, Pick(<<0, n, n + 1, R(0..n), R(0..n), -1>>)>>
          [] c \in {"sput", "swrite"} -> <<c, k, SStr(st)>>
          [] c = "sfmt" -> <<"sfmt", k, R({0, -1, 7, 42, 12345, -308})>>
          [] c = "svar" -> <<"svar", k, x>>
          [] c = "sset" -> <<"set", x, <<>>, <<"L", Str(SStr(st))>>>>
          [] c = "schar" -> <<"set", x, <<I(R(0..3))>>, <<"L", <<"c", SByte(st)>>>>>>
          [] c = "spush" -> <<"push", x, <<>>, <<"L", <<"c", SByte(st)>>>>>>
          [] c = "sview" -> <<"view", x, <<>>, R(Vars), <<R(1..4)>>, R(0..2)>>
          [] OTHER -> GenOp(st, c)
SCats == <<"sopen", "sopen", "sopen", "sget", "sget", "sget", "speek", "speek", "sread", "sread", "sskip", "sline", "sline", "sword", "srest", "sunget", "sunget",
           "sputb", "sseek", "sseek", "sput", "sput", "swrite", "swrite", "sfmt", "svar", "svar", "sclose", "sset", "sset", "schar", "spush",
           "share", "copy", "nil", "pop", "shift", "resize", "sview", "apps", "clear">>
SInit == /\ s = [v |-> [i \in 1..NV + NS |-> Nil], h |-> <<>>]
         /\ pos = [k \in 1..NS |-> -1]
         /\ hist = <<<<<<"sinit", NS>>, "ok", <<>>, <<[i \in 1..NV + NS |-> Nil], <<>>>>, FALSE>>>>
         /\ last = <<>>
SStep(op) ==
    IF op[1] \in SOps
    THEN \E a \in {SApply(s, pos, op)} :
         IF a.ok = "skip" \/ ~InBounds(a.s) THEN UNCHANGED <<s, pos, hist, last>>
         ELSE \E t \in {Canon(a.s)} :
              /\ s' = t /\ pos' = a.p /\ last' = op
              /\ hist' = Append(hist, <<op, a.ok, a.r, Obs(t), op[1] = "sclose" /\ Len(t.h) < Len(s.h)>>)
    ELSE \E a \in {Step(s, op)} :
         IF a.a.ok = "skip" \/ ~InBounds(a.t) THEN UNCHANGED <<s, pos, hist, last>>
         ELSE /\ s' = a.t /\ pos' = pos /\ last' = op
              /\ hist' = Append(hist, <<op, a.a.ok, ResOf(a.a), Obs(a.t), a.drop>>)
SNext == /\ Len(hist) < Depth
         /\ \E op \in {SOp(s, pos, Pick(SCats))} : SStep(op)
         /\ IF Len(hist') = Depth /\ hist' # hist THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* exhaustive mode                                                         *)
(***************************************************************************)
SSmall == {<<c, 1>> : c \in {"sget", "speek", "sline", "sword", "srest", "sunget", "sputb", "sclose"}}
          \cup {<<"sopen", 1, x>> : x \in Vars} \cup {<<"sread", 1, 2>>, <<"sskip", 1, 2>>}
          \cup {<<"sseek", 1, n>> : n \in {-1, 0, 1, 2, 3, 4}}
          \cup {<<"swrite", 1, <<97, 10>>>>, <<"sput", 1, <<-1>>>>}
          \cup {<<"set", 1, <<>>, <<"L", Str(<<97, 10, 98>>)>>>>, <<"set", 1, <<>>, <<"L", Nil>>>>, <<"set", 2, <<>>, <<"P", 1, <<>>>>>>,
                <<"set", 1, <<I(1)>>, <<"L", <<"c", 32>>>>>>, <<"push", 2, <<>>, <<"L", <<"c", 0>>>>>>, <<"svar", 1, 2>>, <<"pop", 1, <<>>, 0>>,
                <<"view", 1, <<>>, 2, <<2>>, 1>>}
SNextAll == /\ Len(hist) < Depth
            /\ \E op \in SSmall : SStep(op)
            /\ hist' # hist
            /\ PrintT("T" \o ToJson(hist'))
SView == <<s, pos>>
(* the position of a stream is within its bytes, or was before they shrank *)
Positions == \A k \in 1..NS : pos[k] >= 0 => IsStr(s.h, s.v[SV(k)])
=============================================================================
