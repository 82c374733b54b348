-------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* Reading lines from streams, and the text file module.  src[k] is what   *)
(* is left to be read from stream k ("none" if there is none), disk the    *)
(* contents of the one text file.                                          *)
(***************************************************************************)
EXTENDS StoreGen, JsonText
CONSTANT NS
VARIABLES src, disk

None == <<-1000>>
RECURSIVE SpanNot(_, _), Upto(_, _, _), LinesOf(_, _)
Upto(t, ch, n) == IF n >= Len(t) THEN Len(t) ELSE IF t[n + 1] = ch THEN n ELSE Upto(t, ch, n + 1)
SpanNot(t, ch) == Upto(t, ch, 0)
(* the lines of a text: the last need not be ended *)
LinesOf(t, acc) == IF t = <<>> THEN acc
                   ELSE LET n == SpanNot(t, 10) IN LinesOf(From(t, n + 2), Append(acc, SubSeq(t, 1, n)))

(* a string as it stands, anything else as it is printed *)
LineText(h, x) == IF IsStr(h, x) THEN Codes(h, x) ELSE Fmt(x, "none")
Writable(h, x) ==
    IF IsNil(x) THEN TRUE
    ELSE IF ~IsRef(x) \/ HasU(h, x) THEN FALSE
    ELSE \A i \in 0..Size(h, x) - 1 :
           LET y == Item(h, x[2], i) IN
           IF IsRef(y) THEN IsStr(h, y) /\ ~HasU(h, y) ELSE y[1] \in {"n", "i", "l", "f", "d"} /\ (y[1] \in {"f", "d"} => SixDigits(y[2]))

(* into slot sl: a string is changed itself, anything else replaced *)
LineInto(st, sl, t) ==
    LET x == Get(st, sl) IN
    IF IsStr(st.h, x)
    THEN IF IsView(st.h, x) \/ Viewed(st, x[2], 0) THEN Skip(st)   \* Excluded: views
         ELSE Done([st EXCEPT !.h[x[2]].e = t])
    ELSE LET b == NewCell(st, Arr("c", t)) IN Done(Put(b, sl, Last(b)))

LApply(st, in, d, op) ==
    LET o == op[1]
        keep == [s |-> st, in |-> in, d |-> d, ok |-> "ok", r |-> <<>>]
        no == [keep EXCEPT !.ok = "skip"]
        thr == [keep EXCEPT !.ok = "throw"]
    IN  CASE o = "lopen" -> [keep EXCEPT !.in[op[2]] = op[4]]
          [] o = "lget" ->
               IF in[op[4]] = None THEN no
               ELSE LET l == Loc(st, <<"x", op[2]>>, op[3]) IN
                    IF l.ok = "throw" THEN [thr EXCEPT !.s = l.s]
                    ELSE IF l.ok # "ok" \/ l.r[1] \in {"t", "d"} THEN no
                    ELSE IF in[op[4]] = <<>>
                    THEN LET a == Assign(l.s, l.r, Nil) IN
                         IF a.ok # "ok" \/ IsView(l.s.h, Get(l.s, l.r)) THEN no ELSE [keep EXCEPT !.s = a.s, !.r = <<"q", 0>>]
                    ELSE LET t == in[op[4]]
                             n == SpanNot(t, 10)
                             a == LineInto(l.s, l.r, SubSeq(t, 1, n))
                         IN  IF a.ok # "ok" THEN no ELSE [keep EXCEPT !.s = a.s, !.in[op[4]] = From(t, n + 2), !.r = <<"q", 1>>]
          [] o = "lchar" -> IF in[op[2]] = None THEN no
                            ELSE IF in[op[2]] = <<>> THEN [keep EXCEPT !.r = <<"q", -1>>]
                            ELSE [keep EXCEPT !.in[op[2]] = Tail(@), !.r = <<"q", Head(in[op[2]]) % 256>>]
          [] o = "lput" -> [keep EXCEPT !.d = op[2]]
          [] o = "ldel" -> [keep EXCEPT !.d = None]
          [] o = "lread" -> IF d = None THEN thr
                            ELSE LET q == LinesOf(d, <<>>)
                                     b == Build(st, IF q = <<>> THEN Nil ELSE <<"v", [i \in 1..Len(q) |-> Str(q[i])]>>)
                                     a == Assign(b.s, <<"x", op[2]>>, b.x)
                                 IN  IF a.ok # "ok" THEN no ELSE [keep EXCEPT !.s = a.s]
          [] o = "lwrite" -> LET x == st.v[op[2]] IN
                             IF ~Writable(st.h, x) THEN no
                             ELSE LET t == Concat([i \in 1..Size(st.h, x) |-> LineText(st.h, Item(st.h, x[2], i - 1)) \o <<10>>])
                                  IN  [keep EXCEPT !.d = t, !.r = <<"q", t>>]
          [] o = "lnodir" -> thr
LOps == {"lopen", "lget", "lchar", "lput", "ldel", "lread", "lwrite", "lnodir"}

(***************************************************************************)
(* Generation                                                              *)
(***************************************************************************)
LLen(st) == IF Chance(8) THEN Pick(<<126, 127, 128, 130, 254, 255, 256>>)
            ELSE IF Chance(4) THEN Pick(<<61, 62, 63, 64, 65>>) ELSE Pick(<<0, 0, 1, 2, 3, 5>>)
LByte(st) == Pick(<<97, 98, 32, 13, 0, -1, -61, 34, 92, 127, 9>>)
Plain1(st) == LET n == LLen(st)
                  a == LByte(st)
                  b == LByte(st)
              IN  [i \in 1..n |-> IF i % 3 = 0 THEN b ELSE IF n > 9 THEN 97 + (i % 26) ELSE IF i % 3 = 1 THEN a ELSE LByte(st)]
RECURSIVE LText(_, _)
LText(st, n) == IF n = 0 THEN (IF Chance(2) THEN <<>> ELSE Plain1(st)) ELSE Plain1(st) \o <<10>> \o LText(st, n - 1)
LOp(st, c) ==
    LET x == R(Vars)
        k == R(1..NS)
    IN  CASE c = "lopen" -> <<"lopen", k, Pick(<<"str", "file", "var">>), LText(st, R(0..4))>>
          [] c = "lget" -> <<"lget", x, IF Chance(4) THEN RPath(st, st.v[x], 2) ELSE <<>>, k>>
          [] c = "lchar" -> <<"lchar", k>>
          [] c = "lput" -> <<"lput", LText(st, R(0..3))>>
          [] c = "ldel" -> <<"ldel">>
          [] c = "lread" -> <<"lread", x>>
          [] c = "lwrite" -> <<"lwrite", x>>
          [] c = "lnodir" -> <<"lnodir", x>>
          [] c = "larr" -> <<"set", x, <<>>, <<"L", IF Chance(4) THEN R(Denses) ELSE <<"v", [i \in 1..R(0..4) |-> IF Chance(8) THEN R(Scalars \cup {Nil}) ELSE Str(Plain1(st))]>>>>>>
          [] OTHER -> GenOp(st, c)
LCats == <<"lopen", "lopen", "lget", "lget", "lget", "lget", "lget", "lget", "lget", "lchar", "lput", "ldel", "lread", "lread", "lread", "lwrite", "lwrite", "lwrite",
           "lnodir", "larr", "larr", "larr", "share", "store", "nil", "push", "copy", "get", "shift", "view">>
LInit == Init /\ src = [k \in 1..NS |-> None] /\ disk = None
LStep(op) ==
    IF op[1] \in LOps
    THEN \E a \in {LApply(s, src, disk, op)} :
         IF a.ok = "skip" \/ ~InBounds(a.s) \/ ~Acyclic(a.s.h) THEN UNCHANGED <<s, src, disk, hist, last>>
         ELSE \E t \in {Canon(a.s)} :
              /\ s' = t /\ src' = a.in /\ disk' = a.d /\ last' = op
              /\ hist' = Append(hist, <<op, a.ok, a.r, Obs(t), FALSE>>)
    ELSE \E a \in {Step(s, op)} :
         IF a.a.ok = "skip" \/ ~InBounds(a.t) THEN UNCHANGED <<s, src, disk, hist, last>>
         ELSE /\ s' = a.t /\ last' = op /\ UNCHANGED <<src, disk>>
              /\ hist' = Append(hist, <<op, a.a.ok, ResOf(a.a), Obs(a.t), a.drop>>)
LNext == /\ Len(hist) < Depth
         /\ \E op \in {LOp(s, Pick(LCats))} : LStep(op)
         /\ IF Len(hist') = Depth /\ hist' # hist THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(* every line length around the growths of the buffer, alone, ended or not, *)
(* and before another line: one program each                               *)
AllLines ==
    /\ hist = <<>>
    /\ \E n \in 0..MaxLen : \E kind \in {"str", "file", "var"} : \E ended \in BOOLEAN : \E more \in BOOLEAN :
       LET t == [i \in 1..n |-> 97 + (i % 26)] \o (IF ended THEN <<10>> ELSE <<>>) \o (IF more THEN <<10, 98, 99>> ELSE <<>>)
           ops == <<<<"lopen", 1, kind, t>>, <<"lget", 1, <<>>, 1>>, <<"lget", 2, <<>>, 1>>, <<"lget", 1, <<>>, 1>>, <<"lget", 1, <<>>, 1>>, <<"lget", 2, <<>>, 1>>>>
           run[i \in 0..6] == IF i = 0 THEN [s |-> s, in |-> src, d |-> disk, ok |-> "ok", r |-> <<>>] ELSE LApply(run[i - 1].s, run[i - 1].in, disk, ops[i])
       IN  /\ hist' = [i \in 1..6 |-> <<ops[i], run[i].ok, run[i].r, Obs(Canon(run[i].s)), FALSE>>]
           /\ PrintT("T" \o ToJson(hist'))
    /\ UNCHANGED <<s, src, disk, last>>

(* in the model: lines put together give the text *)
Whole == disk # None => LET q == LinesOf(disk, <<>>)
                            t == Concat([i \in 1..Len(q) |-> q[i] \o <<10>>])
                        IN  t = disk \/ t = disk \o <<10>>
=============================================================================
