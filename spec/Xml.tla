--------------------------------- MODULE Xml ---------------------------------
(***************************************************************************)
(* XML: what a document means as a tree.  An element is an array           *)
(* [name, map of attributes or nil, "text", array of contents or nil];     *)
(* adjacent runs of text are taken together.  Line ends as such are left   *)
(* out of text; in attributes they are white space.                        *)
(* Not claimed ("skip"): comments, processing instructions, CDATA, DTDs,   *)
(* names beyond ASCII, characters beyond U+07FF.                           *)
(***************************************************************************)
EXTENDS StoreStep, Text

NameStart == (65..90) \cup (97..122) \cup {95, 58}
NameChar == NameStart \cup (48..57) \cup {45, 46}
XWhite == {9, 10, 13, 32}
XOk(p, x) == [ok |-> "ok", p |-> p, x |-> x]
XBad(ok) == [ok |-> ok, p |-> 0, x |-> <<>>]
At1(t, p) == IF p <= Len(t) THEN t[p] ELSE -1000        \* -1000: the end
Starts(t, p, w) == p + Len(w) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(w) - 1) = w

RECURSIVE LineEnds(_, _), SpanIn(_, _, _)
(* line ends become one newline each; newlines and returns that references *)
(* stand for come later, and so stay                                       *)
LineEnds(t, p) == IF p > Len(t) THEN <<>>
                  ELSE IF t[p] # 13 THEN <<t[p]>> \o LineEnds(t, p + 1)
                  ELSE <<10>> \o LineEnds(t, IF At1(t, p + 1) = 10 THEN p + 2 ELSE p + 1)
SpanIn(t, p, S) == IF At1(t, p) \in S THEN SpanIn(t, p + 1, S) ELSE p      \* first position not in S
NameAt(t, p) == LET n == SpanIn(t, p, NameChar) IN
                IF At1(t, p) \in NameStart THEN XOk(n, SubSeq(t, p, n - 1))
                ELSE IF At1(t, p) < 0 /\ At1(t, p) # -1000 THEN XBad("skip") ELSE XBad("throw")

(* the character after & or the end of the reference *)
Utf8(n) == IF n < 128 THEN <<n>> ELSE <<(192 + (n \div 64)) - 256, (128 + (n % 64)) - 256>>
RECURSIVE Number(_, _, _)
Number(ds, base, acc) == IF ds = <<>> THEN acc
                         ELSE LET d == Head(ds)
                                  k == IF d \in 48..57 THEN d - 48 ELSE IF d \in 97..102 THEN d - 87 ELSE d - 55
                              IN  Number(Tail(ds), base, IF acc > 100000 THEN acc ELSE base * acc + k)
RefAt(t, p) ==     \* t[p] is the character after &
    LET n == SpanIn(t, p, NameChar)
        w == SubSeq(t, p, n - 1)
        hex == At1(t, p + 1) = 120
        d0 == IF hex THEN p + 2 ELSE p + 1
        dn == SpanIn(t, d0, (48..57) \cup (IF hex THEN (97..102) \cup (65..70) ELSE {}))
        c == Number(SubSeq(t, d0, dn - 1), IF hex THEN 16 ELSE 10, 0)
    IN  IF At1(t, p) = 35
        THEN IF dn = d0 \/ At1(t, dn) # 59 THEN XBad("throw")
             ELSE IF c > 2047 THEN XBad("skip")
             ELSE IF c < 32 /\ c \notin {9, 10, 13} THEN XBad("throw") ELSE XOk(dn + 1, Utf8(c))
        ELSE IF n = p \/ At1(t, n) # 59 THEN (IF At1(t, n) < 0 /\ At1(t, n) # -1000 THEN XBad("skip") ELSE XBad("throw"))
        ELSE CASE w = B("lt") -> XOk(n + 1, <<60>>) [] w = B("gt") -> XOk(n + 1, <<62>>)
               [] w = B("amp") -> XOk(n + 1, <<38>>) [] w = B("apos") -> XOk(n + 1, <<39>>)
               [] w = B("quot") -> XOk(n + 1, <<34>>) [] OTHER -> XBad("throw")
(* one plain character *)
CharAt(t, p) == LET ch == At1(t, p) IN
                IF ch = -1000 THEN XBad("throw")
                ELSE IF ch >= 0 THEN (IF ch < 32 /\ ch \notin {9, 10} THEN XBad("throw") ELSE XOk(p + 1, <<ch>>))
                ELSE IF ch \in -62..-33 /\ At1(t, p + 1) \in -128..-65 THEN XOk(p + 2, <<ch, t[p + 1]>>)
                ELSE XBad("skip")
RECURSIVE ValueAt(_, _, _, _), AttrsAt(_, _, _), ElemAt(_, _), ContentAt(_, _, _, _)
ValueAt(t, p, quote, acc) ==
    LET ch == At1(t, p) IN
    IF ch = quote THEN XOk(p + 1, acc)
    ELSE IF ch = 60 THEN XBad("throw")
    ELSE IF ch = 38 THEN LET r == RefAt(t, p + 1) IN IF r.ok # "ok" THEN r ELSE ValueAt(t, r.p, quote, acc \o r.x)
    ELSE LET r == CharAt(t, p) IN
         IF r.ok # "ok" THEN r ELSE ValueAt(t, r.p, quote, acc \o (IF ch \in {9, 10} THEN <<32>> ELSE r.x))
(* attributes from p on, where white space may come first; stops at > or / *)
AttrsAt(t, p, acc) ==
    LET w == SpanIn(t, p, XWhite) IN
    IF At1(t, w) \in {62, 47} THEN XOk(w, acc)
    ELSE IF w = p THEN (IF At1(t, w) < 0 /\ At1(t, w) # -1000 THEN XBad("skip") ELSE XBad("throw"))
    ELSE LET n == NameAt(t, w)
             e == SpanIn(t, n.p, XWhite)
             q == SpanIn(t, e + 1, XWhite)
             v == ValueAt(t, q + 1, t[q], <<>>)
         IN  IF n.ok # "ok" THEN n
             ELSE IF At1(t, e) < 0 /\ At1(t, e) # -1000 THEN XBad("skip")
             ELSE IF At1(t, e) # 61 THEN XBad("throw")
             ELSE IF At1(t, q) \notin {34, 39} THEN XBad("throw")
             ELSE IF v.ok # "ok" THEN v
             ELSE IF \E i \in 1..Len(acc) : acc[i][1] = n.x THEN XBad("throw")
             ELSE AttrsAt(t, v.p, Append(acc, <<n.x, v.x>>))
Elem(name, attrs, data) ==
    <<"v", <<<<"s", name>>, IF attrs = <<>> THEN Nil ELSE <<"m", [i \in 1..Len(attrs) |-> <<<<"s", attrs[i][1]>>, <<"s", attrs[i][2]>>>>]>>,
             <<"s", B("text")>>, IF data = <<>> THEN Nil ELSE <<"v", data>>>>>>
(* an element whose name starts at p *)
ElemAt(t, p) ==
    LET n == NameAt(t, p)
        a == AttrsAt(t, n.p, <<>>)
        c == ContentAt(t, a.p + 1, n.x, <<>>)
    IN  IF n.ok # "ok" THEN n
        ELSE IF a.ok # "ok" THEN a
        ELSE IF t[a.p] = 47 THEN (IF At1(t, a.p + 1) = 62 THEN XOk(a.p + 2, Elem(n.x, a.x, <<>>)) ELSE XBad("throw"))
        ELSE IF c.ok # "ok" THEN c ELSE XOk(c.p, Elem(n.x, a.x, c.x))
AddText(acc, x) == IF x = <<>> THEN acc
                   ELSE IF acc # <<>> /\ acc[Len(acc)][1] = "s" THEN [acc EXCEPT ![Len(acc)] = <<"s", @[2] \o x>>]
                   ELSE Append(acc, <<"s", x>>)
ContentAt(t, p, name, acc) ==
    LET ch == At1(t, p) IN
    IF ch = 60
    THEN IF At1(t, p + 1) = 47
         THEN LET n == NameAt(t, p + 2)
                  e == SpanIn(t, n.p, XWhite)
              IN  IF n.ok # "ok" THEN n
                  ELSE IF At1(t, e) # 62 THEN (IF At1(t, e) < 0 /\ At1(t, e) # -1000 THEN XBad("skip") ELSE XBad("throw"))
                  ELSE IF n.x # name THEN XBad("throw") ELSE XOk(e + 1, acc)
         ELSE IF At1(t, p + 1) \in {33, 63} THEN XBad("skip")
         ELSE LET e == ElemAt(t, p + 1) IN IF e.ok # "ok" THEN e ELSE ContentAt(t, e.p, name, Append(acc, e.x))
    ELSE IF ch = 38 THEN LET r == RefAt(t, p + 1) IN IF r.ok # "ok" THEN r ELSE ContentAt(t, r.p, name, AddText(acc, r.x))
    ELSE IF Starts(t, p, B("]]>")) THEN XBad("throw")
    ELSE LET r == CharAt(t, p) IN
         IF r.ok # "ok" THEN r ELSE ContentAt(t, r.p, name, IF ch = 10 THEN acc ELSE AddText(acc, r.x))
Decls == {B("<?xml version=\"1.0\"?>"), B("<?xml version='1.0' encoding='UTF-8'?>"), B("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>"),
          B("<?xml version=\"1.0\" standalone='no' ?>")}
Doc(t0) ==
    LET t == LineEnds(t0, 1)
        d == {w \in Decls : Starts(t, 1, w)}
        p == SpanIn(t, IF d = {} THEN 1 ELSE 1 + Len(CHOOSE w \in d : TRUE), XWhite)
        e == ElemAt(t, p + 1)
        q == SpanIn(t, e.p, XWhite)
    IN  IF At1(t, p) = -1000 THEN XBad("throw")
        ELSE IF At1(t, p) # 60 THEN (IF At1(t, p) < 0 THEN XBad("skip") ELSE XBad("throw"))
        ELSE IF At1(t, p + 1) \in {33, 63} THEN XBad("skip")
        ELSE IF e.ok # "ok" THEN e
        ELSE IF At1(t, q) = -1000 THEN e
        ELSE IF At1(t, q) = 60 /\ At1(t, q + 1) \in {33, 63} THEN XBad("skip")
        ELSE IF At1(t, q) < 0 THEN XBad("skip") ELSE XBad("throw")

(***************************************************************************)
(* Writing: a tree of elements survives                                    *)
(***************************************************************************)
RECURSIVE GoodText(_, _), Writes(_, _)
GoodText(t, p) == IF p > Len(t) THEN TRUE
                  ELSE IF t[p] >= 0 THEN (t[p] >= 32 \/ t[p] \in {9, 10, 13}) /\ GoodText(t, p + 1)
                  ELSE t[p] \in -62..-33 /\ At1(t, p + 1) \in -128..-65 /\ GoodText(t, p + 2)
GoodStr(h, x) == IsStr(h, x) /\ ~IsView(h, x) /\ ~HasU(h, x) /\ GoodText(Codes(h, x), 1)
GoodName(h, x) == IsStr(h, x) /\ ~IsView(h, x) /\ ~HasU(h, x) /\ LET t == Codes(h, x) IN t # <<>> /\ Head(t) \in NameStart /\ \A i \in 1..Len(t) : t[i] \in NameChar
IsElem(h, x) == IsRef(x) /\ ~IsView(h, x) /\ ~IsMap(h, x) /\ AType(h, x[2]) = "v" /\ Size(h, x) = 4 /\ IsStr(h, Item(h, x[2], 2)) /\ ~HasU(h, Item(h, x[2], 2))
                /\ Codes(h, Item(h, x[2], 2)) = B("text")
(* what an element reads back as *)
Joined1(acc, x) == IF x[1] = "s" THEN AddText(acc, x[2]) ELSE Append(acc, x)
RECURSIVE JoinAll(_, _)
JoinAll(xs, acc) == IF xs = <<>> THEN acc ELSE JoinAll(Tail(xs), Joined1(acc, Head(xs)))
Writes(h, x) ==      \* [ok, x]: the literal that comes back
    LET name == Item(h, x[2], 0)
        attr == Item(h, x[2], 1)
        data == Item(h, x[2], 3)
        kids == [i \in 1..Size(h, data) |-> Item(h, data[2], i - 1)]
        sub == [i \in 1..Len(kids) |-> IF IsElem(h, kids[i]) THEN Writes(h, kids[i])
                                       ELSE IF GoodStr(h, kids[i]) THEN XOk(0, <<"s", Codes(h, kids[i])>>) ELSE XBad("skip")]
        as == [i \in 1..Size(h, attr) |-> <<Codes(h, h[attr[2]].e[i][1]), Codes(h, h[attr[2]].e[i][2])>>]
    IN  IF ~GoodName(h, name) THEN XBad("skip")
        ELSE IF ~IsNil(attr) /\ ~IsMap(h, attr) THEN XBad("skip")
        ELSE IF \E i \in 1..Size(h, attr) : ~GoodName(h, h[attr[2]].e[i][1]) \/ ~GoodStr(h, h[attr[2]].e[i][2]) THEN XBad("skip")
        ELSE IF ~IsNil(data) /\ ~(IsRef(data) /\ ~IsView(h, data) /\ AType(h, data[2]) = "v") THEN XBad("skip")
        ELSE IF \E i \in 1..Len(sub) : sub[i].ok # "ok" THEN XBad("skip")
        ELSE XOk(0, Elem(Codes(h, name), as, JoinAll([i \in 1..Len(sub) |-> sub[i].x], <<>>)))

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
XmlOps == {"xread", "xmiss", "xround"}
XInto(st, z, l) == LET b == Build(st, l) IN Assign(b.s, <<"x", z>>, b.x)
XApply(st, op) ==
    CASE op[1] = "xread" -> LET d == Doc(op[2]) IN
                            IF d.ok = "skip" THEN Skip(st) ELSE IF d.ok # "ok" THEN Throw(st) ELSE XInto(st, op[3], d.x)
      [] op[1] = "xmiss" -> Throw(st)
      [] op[1] = "xround" ->
           LET x == st.v[op[2]] IN
           IF IsElem(st.h, x) THEN LET w == Writes(st.h, x) IN IF w.ok # "ok" THEN Skip(st) ELSE XInto(st, op[3], w.x)
           ELSE IF IsRef(x) /\ (HasU(st.h, x) \/ IsMap(st.h, x) \/ IsView(st.h, x)) THEN Skip(st)
           ELSE Throw(st)
=============================================================================
