------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON: what a text denotes, which texts are broken, and what a value is  *)
(* once written and read back.  Values are literals, as in Store: nil is   *)
(* <<"n">>, a string <<"s", codes>>, an array <<"v", values>> or           *)
(* <<"a", type, elements>>, a map <<"m", pairs>>.                          *)
(***************************************************************************)
EXTENDS StoreStep, Text

(***************************************************************************)
(* Words: what is neither a string nor in brackets                         *)
(***************************************************************************)
Delim == White \cup {44, 91, 93, 123, 125}
RECURSIVE SpanWord(_), SpanDig(_)
SpanWord(t) == IF t = <<>> \/ Head(t) \in Delim THEN 0 ELSE 1 + SpanWord(Tail(t))
SpanDig(t) == IF t # <<>> /\ Head(t) \in Digit THEN 1 + SpanDig(Tail(t)) ELSE 0

(* digits [. digits] [e digits]: lax: with a sign, leading zeros, no digits
   on a side of the point.  Strict numbers are those of JSON. *)
NumForm(w) ==
    LET s0 == w # <<>> /\ Head(w) \in {43, 45}
        u == IF s0 THEN Tail(w) ELSE w
        n == SpanDig(u)
        r1 == From(u, n + 1)
        pt == r1 # <<>> /\ Head(r1) = 46
        m == IF pt THEN SpanDig(Tail(r1)) ELSE 0
        r2 == IF pt THEN From(r1, m + 2) ELSE r1
        ex == r2 # <<>> /\ Head(r2) \in {69, 101}
        es == ex /\ Len(r2) > 1 /\ r2[2] \in {43, 45}
        r3 == IF ex THEN From(r2, IF es THEN 3 ELSE 2) ELSE r2
        k == SpanDig(r3)
    IN  [lax |-> n + m > 0 /\ (ex => k > 0) /\ k = Len(r3),
         strict |-> /\ n > 0 /\ (pt => m > 0) /\ (ex => k > 0) /\ k = Len(r3)
                    /\ (n > 1 => u[1] # 48) /\ ~(s0 /\ w[1] = 43),
         int |-> ~pt /\ ~ex, neg |-> s0 /\ w[1] = 45,
         i |-> SubSeq(u, 1, n), f |-> SubSeq(r1, 2, m + 1), eneg |-> es /\ r2[2] = 45, e |-> r3]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
WordValue(w) ==
    IF w = B("true") THEN [k |-> "ok", l |-> <<"i", 1>>]
    ELSE IF w = B("false") THEN [k |-> "ok", l |-> <<"i", 0>>]
    ELSE IF w = B("null") THEN [k |-> "ok", l |-> Nil]
    ELSE LET f == NumForm(w)
             m == f.i \o f.f
             e == IF f.int \/ f.e = <<>> THEN 0 ELSE IF f.eneg THEN -Decimal(f.e, 0) ELSE Decimal(f.e, 0)
             x == e - Len(f.f)      \* value is m * 10^x
             v == Decimal(m, 0) * 4
             q == IF x >= 0 THEN v * Pow10(x) ELSE v \div Pow10(-x)
         IN  IF f.lax
             THEN IF Len(m) + (IF x > 0 THEN x ELSE 0) > 8 \/ Len(f.e) > 1 \/ x < -8 THEN [k |-> "skip", l |-> Nil]  \* beyond TLC's integers
                  ELSE IF x < 0 /\ v % Pow10(-x) # 0 THEN [k |-> "skip", l |-> Nil] \* not a number of quarters
                  ELSE IF f.int THEN [k |-> "ok", l |-> <<"l", IF f.neg THEN -(q \div 4) ELSE q \div 4>>]
                  ELSE IF f.neg /\ q = 0 THEN [k |-> "skip", l |-> Nil]
                  ELSE [k |-> "ok", l |-> <<"d", IF f.neg THEN -q ELSE q>>]
             \* Left open: words with " or : or zero bytes or that may be inf, nan, hexadecimal
             ELSE IF (\E i \in 1..Len(w) : w[i] \in {34, 58, 0, 88, 120, 80, 112, 105, 73, 110, 78}) THEN [k |-> "skip", l |-> Nil]
             ELSE [k |-> "throw", l |-> Nil]

(***************************************************************************)
(* The reader: [k |-> "ok", l |-> value, p |-> what remains]; "throw" for   *)
(* the texts that must be refused; "skip" for those left open              *)
(***************************************************************************)
Bad == [k |-> "throw", l |-> Nil, p |-> <<>>]
Open == [k |-> "skip", l |-> Nil, p |-> <<>>]
RECURSIVE SkipWs(_), PVal(_), PArr(_, _, _), PObj(_, _, _), PStr(_, _)
SkipWs(t) == IF t # <<>> /\ Head(t) \in White THEN SkipWs(Tail(t)) ELSE t
PStr(t, acc) ==
    IF t = <<>> THEN Bad
    ELSE IF Head(t) = 34 THEN [k |-> "ok", l |-> <<"s", acc>>, p |-> Tail(t)]
    ELSE IF Head(t) = 92
    THEN IF Len(t) < 2 THEN Bad
         ELSE IF t[2] \in {34, 92} THEN PStr(From(t, 3), Append(acc, t[2]))
         ELSE Open        \* other escapes
    ELSE PStr(Tail(t), Append(acc, Head(t)))
(* an array of numbers of one type is a dense one *)
Pack(q) == IF q # <<>> /\ q[1][1] \in {"i", "l", "d"} /\ \A j \in 1..Len(q) : q[j][1] = q[1][1]
           THEN <<"a", q[1][1], [j \in 1..Len(q) |-> q[j][2]]>> ELSE <<"v", q>>
RECURSIVE PutPair(_, _, _)
PutPair(q, key, val) ==
    IF q = <<>> THEN <<<<key, val>>>>
    ELSE IF q[1][1] = key THEN <<<<key, val>>>> \o Tail(q)
    ELSE <<q[1]>> \o PutPair(Tail(q), key, val)
(* st: "first" after the opening, "value" after a comma, "next" after a value *)
PArr(t0, acc, st) ==
    LET t == SkipWs(t0) IN
    IF t = <<>> THEN Bad
    ELSE IF st = "next"
    THEN IF Head(t) = 93 THEN [k |-> "ok", l |-> Pack(acc), p |-> Tail(t)]
         ELSE IF Head(t) = 44 THEN PArr(Tail(t), acc, "value") ELSE Open
    ELSE IF Head(t) = 93 /\ st = "first" THEN [k |-> "ok", l |-> <<"v", <<>>>>, p |-> Tail(t)]
    ELSE LET r == PVal(t) IN
         IF r.k # "ok" THEN r ELSE PArr(r.p, Append(acc, r.l), "next")
PObj(t0, acc, st) ==
    LET t == SkipWs(t0) IN
    IF t = <<>> THEN Bad
    ELSE IF st = "next"
    THEN IF Head(t) = 125 THEN [k |-> "ok", l |-> <<"m", acc>>, p |-> Tail(t)]
         ELSE IF Head(t) = 44 THEN PObj(Tail(t), acc, "value") ELSE Open
    ELSE IF Head(t) = 125 /\ st = "first" THEN [k |-> "ok", l |-> <<"m", acc>>, p |-> Tail(t)]
    ELSE IF Head(t) # 34 THEN Open
    ELSE LET key == PStr(Tail(t), <<>>)
             c == SkipWs(key.p)
         IN  IF key.k # "ok" THEN key
             ELSE IF c = <<>> THEN Bad
             ELSE IF Head(c) # 58 THEN Open
             ELSE LET r == PVal(Tail(c)) IN
                  IF r.k # "ok" THEN r ELSE PObj(r.p, PutPair(acc, key.l, r.l), "next")
PVal(t0) ==
    LET t == SkipWs(t0) IN
    IF t = <<>> THEN Bad
    ELSE IF Head(t) = 91 THEN PArr(Tail(t), <<>>, "first")
    ELSE IF Head(t) = 123 THEN PObj(Tail(t), <<>>, "first")
    ELSE IF Head(t) = 34 THEN PStr(Tail(t), <<>>)
    ELSE LET n == SpanWord(t)
             v == WordValue(SubSeq(t, 1, n))
         IN  IF n = 0 THEN Open ELSE [k |-> v.k, l |-> v.l, p |-> From(t, n + 1)]

(***************************************************************************)
(* What a value is once written and read back: numbers get the widest type *)
(* of their kind, whole reals are integers                                 *)
(***************************************************************************)
Num(t, x) == IF IsInt(t) THEN <<"l", x>> ELSE IF x % 4 = 0 THEN <<"l", x \div 4>> ELSE <<"d", x>>
SixDigits(q) == q \in -40000..40000 \/ (q % 4 = 0 /\ q \in -3999999..3999999)
RECURSIVE Norm(_, _), Plain(_, _)
Norm(h, x) ==
    IF IsNil(x) THEN Nil
    ELSE IF ~IsRef(x) THEN Num(x[1], x[2])
    ELSE IF IsStr(h, x) THEN <<"s", Codes(h, x)>>
    ELSE IF IsMap(h, x)
    THEN <<"m", [i \in 1..Size(h, x) |-> <<<<"s", Codes(h, h[x[2]].e[i][1])>>, Norm(h, Item(h, x[2], i - 1))>>]>>
    ELSE Pack([i \in 1..Size(h, x) |-> Norm(h, Item(h, x[2], i - 1))])
RECURSIVE Wider(_)    \* has numbers whose digits are not known here
Wider(l) == CASE l[1] = "n" -> FALSE
              [] l[1] \in {"l", "d"} -> IsWide(l[1], l[2])
              [] l[1] = "a" -> \E i \in 1..Len(l[3]) : IsWide(l[2], l[3][i])
              [] l[1] = "v" -> \E i \in 1..Len(l[2]) : Wider(l[2][i])
              [] l[1] = "m" -> \E i \in 1..Len(l[2]) : Wider(l[2][i][2])
              [] OTHER -> FALSE
(* the values this is about *)
Plain(h, x) ==
    IF IsNil(x) THEN TRUE
    ELSE IF ~IsRef(x) THEN (x[1] \in {"i", "l", "f", "d"} /\ x[2] # U) /\ (IsInt(x[1]) \/ SixDigits(x[2]))
    ELSE IF IsView(h, x) \/ IsCx(AType(h, x[2])) THEN FALSE
    ELSE IF IsStr(h, x) THEN ~HasU(h, x)
    ELSE /\ \A i \in 0..Size(h, x) - 1 : Plain(h, Item(h, x[2], i))
         /\ IsMap(h, x) => \A i \in 1..Size(h, x) : IsStr(h, h[x[2]].e[i][1])

(***************************************************************************)
(* A writer: one text of a literal.  gaps: what white space is in it        *)
(***************************************************************************)
Gaps(mode) == CASE mode = "none" -> {<<>>}
                [] mode = "tight" -> {<<>>, <<32>>}
                [] OTHER -> {<<>>, <<32>>, <<10>>, <<9>>, <<32, 32>>, <<13, 10>>, <<11>>, <<12, 32>>}
G(mode, n) == IF n % 2 = 1 THEN RandomElement(Gaps(mode)) ELSE RandomElement(Gaps(mode) \cup {<<>>})
RECURSIVE Escape(_)
Escape(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in {34, 92} THEN <<92, Head(q)>> ELSE <<Head(q)>>) \o Escape(Tail(q))
Quoted(q) == <<34>> \o Escape(q) \o <<34>>
RECURSIVE Fmt(_, _)
Fmt(l, w) ==
    CASE l[1] = "n" -> B("null")
      [] l[1] = "b" -> IF l[2] THEN B("true") ELSE B("false")
      [] l[1] \in {"i", "l"} -> IntText(l[2])
      [] l[1] \in {"f", "d"} -> RealText(l[2])
      [] l[1] = "s" -> Quoted(l[2])
      [] l[1] = "v" -> <<91>> \o G(w, 1) \o JoinSep([i \in 1..Len(l[2]) |-> Fmt(l[2][i], w) \o G(w, 2)], <<44>> \o G(w, 3)) \o <<93>>
      [] l[1] = "a" -> IF l[2] = "c" THEN Quoted(l[3])
                       ELSE <<91>> \o G(w, 1) \o JoinSep([i \in 1..Len(l[3]) |-> Fmt(<<l[2], l[3][i]>>, w) \o G(w, 2)], <<44>> \o G(w, 3)) \o <<93>>
      [] l[1] = "m" -> <<123>> \o G(w, 1)
                       \o JoinSep([i \in 1..Len(l[2]) |-> Fmt(l[2][i][1], w) \o G(w, 4) \o <<58>> \o G(w, 5) \o Fmt(l[2][i][2], w) \o G(w, 2)], <<44>> \o G(w, 3))
                       \o <<125>>

(***************************************************************************)
(* The machine: variables, and one stream of text.  st.q is what is in the *)
(* stream: <<"t", bytes>> text, or <<"w", literals>> values written.       *)
(***************************************************************************)
JApply(st, q, op) ==
    LET o == op[1]
        keep == [s |-> st, q |-> q, ok |-> "ok", r |-> <<>>]
        no == [keep EXCEPT !.ok = "skip"]
        put(l, rest, z) == LET b == Build(st, l)
                               a == Assign(b.s, <<"x", z>>, b.x)
                           IN  IF a.ok # "ok" THEN no ELSE [keep EXCEPT !.s = a.s, !.q = rest]
    IN  CASE o = "jtext" -> IF q[1] = "w" /\ q[2] # <<>> THEN no
                            ELSE [keep EXCEPT !.q = <<"t", (IF q[1] = "t" THEN q[2] ELSE <<>>) \o op[2]>>]
          [] o = "jwrite" -> \* a value and white space, needed after a number or null
                             IF q[1] = "t" /\ q[2] # <<>> THEN no
                             ELSE IF op[3] = <<>> /\ ~IsRef(st.v[op[2]]) THEN no
                             ELSE IF ~Plain(st.h, st.v[op[2]]) THEN no
                             ELSE [keep EXCEPT !.q = <<"w", (IF q[1] = "w" THEN q[2] ELSE <<>>) \o <<Norm(st.h, st.v[op[2]])>>>>]
          [] o = "jread" ->
               IF q[2] = <<>> THEN [keep EXCEPT !.ok = "throw", !.q = <<"t", <<>>>>]
               ELSE IF q[1] = "w" THEN put(Head(q[2]), <<"w", Tail(q[2])>>, op[2])
               ELSE LET r == PVal(q[2]) IN
                    CASE r.k = "ok" -> put(r.l, <<"t", r.p>>, op[2])
                      [] r.k = "throw" -> [keep EXCEPT !.ok = "throw", !.q = <<"t", <<>>>>]
                      [] OTHER -> no
          [] o = "jrest" -> \* what is left, byte for byte
               IF q[1] = "w" THEN no ELSE [keep EXCEPT !.q = <<"t", <<>>>>, !.r = <<"q", q[2]>>]
          [] o = "jround" -> \* write, read back all of it, write and read again: the same text
               IF ~Plain(st.h, st.v[op[2]]) THEN no
               ELSE LET l == Norm(st.h, st.v[op[2]])
                        a == put(l, q, op[3])
                    IN  [a EXCEPT !.r = <<"q", 1, 0, IF Wider(l) THEN U ELSE Fmt(l, "none")>>]
          [] o = "jcanon" -> \* read text, write it: the same text
               [keep EXCEPT !.r = <<"q", op[2]>>]
JOps == {"jtext", "jwrite", "jread", "jrest", "jround", "jcanon"}
=============================================================================
