-------------------------------- MODULE Media --------------------------------
(***************************************************************************)
(* Audio files and graphs.  An audio file holds a rate and, for each       *)
(* channel, samples of 16 bits, here integers; sample k stands for the     *)
(* real number k / 32768.  A handler of audio files keeps the map of       *)
(* attributes it was made with, in a variable of the store that no program *)
(* sees (number NHidden + i).  A graph has vertices 0, 1, ... and edges    *)
(* between them.                                                           *)
(*                                                                         *)
(* f = [au: handlers, fl: files, gr: graphs, dot: files of graphs]         *)
(***************************************************************************)
EXTENDS StoreStep, Text
CONSTANT NHidden

NoFile == [is |-> "none", rate |-> 0, ch |-> 0, n |-> 0, x |-> <<>>]
F0 == [au |-> <<FALSE, FALSE>>, fl |-> <<NoFile, NoFile>>, gr |-> <<>>, dot |-> <<<<>>, <<>>>>]
Root(i) == NHidden + i
RateKey == <<<<"k", <<"s", B("rate")>>>>>>
AOps == {"anew", "awrite", "apat", "aread", "aload", "agarb", "alost", "gnew", "gvert", "gedge", "gwrite", "gfile", "glost"}
MR(st, f, ok, r) == [s |-> st, f |-> f, ok |-> ok, r |-> r]
Unknown == [NoFile EXCEPT !.is = "unknown"]
File(rate, ch, n, x) == [is |-> "audio", rate |-> rate, ch |-> ch, n |-> n, x |-> x]

(* the rate a handler has: looking for it leaves a place for it in the map *)
RateOf(st, i) == LET l == Loc(st, <<"x", Root(i)>>, RateKey) IN
                 IF l.ok # "ok" THEN Skip(st)
                 ELSE LET x == Get(l.s, l.r) IN
                      IF IsNil(x) THEN Out(l.s, 0, "ok")
                      ELSE IF x[1] \in {"i", "l"} /\ ~IsWide(x[1], x[2]) /\ x[2] # U THEN Out(l.s, x[2], "ok") ELSE Skip(st)
SetRate(st, i, rate) == LET l == Loc(st, <<"x", Root(i)>>, RateKey) IN
                        IF l.ok # "ok" THEN Skip(st) ELSE Assign(l.s, l.r, <<"i", rate>>)

(* 16 bits of a number of type t; not claimed beyond [-1, 1) *)
Sample(t, v) == IF v = U THEN 99999
                ELSE IF IsInt(t) THEN (IF v \in {0, -1} THEN 32768 * v ELSE 99999)
                ELSE IF v \in -4..3 THEN 8192 * v ELSE 99999
Written(h, x) ==   \* [ok, ch, n, x]
    IF IsNil(x) THEN [ok |-> "ok", ch |-> 1, n |-> 0, x |-> <<>>]
    ELSE LET t == IF IsRef(x) THEN (IF IsMap(h, x) THEN "m" ELSE AType(h, x[2])) ELSE x[1]
             d == IF IsRef(x) /\ ~IsMap(h, x) THEN ShapeOf(h, x) ELSE <<1>>
             n == IF IsRef(x) THEN Size(h, x) ELSE 1
             e == [i \in 1..n |-> Sample(t, IF IsRef(x) THEN Item(h, x[2], i - 1)[2] ELSE x[2])]
         IN  IF t \notin {"i", "l", "f", "d"} THEN [ok |-> "throw", ch |-> 0, n |-> 0, x |-> <<>>]
             ELSE IF Len(d) > 2 \/ (\E i \in 1..n : e[i] = 99999) \/ (Len(d) = 2 /\ d[1] = 0) THEN [ok |-> "skip", ch |-> 0, n |-> 0, x |-> <<>>]
             ELSE IF Len(d) = 2 THEN [ok |-> "ok", ch |-> d[1], n |-> d[2], x |-> e]
             ELSE [ok |-> "ok", ch |-> 1, n |-> n, x |-> e]
AWrite(st, f, i, k, w) ==
    LET r == RateOf(st, i) IN
    IF r.ok # "ok" \/ w.ok = "skip" THEN MR(st, f, "skip", <<>>)
    ELSE IF w.ok = "throw" THEN MR(st, [f EXCEPT !.fl[k] = Unknown], "throw", <<>>)
    ELSE IF r.r < 1 THEN MR(r.s, [f EXCEPT !.fl[k] = Unknown], "throw", <<>>)
    ELSE MR(r.s, [f EXCEPT !.fl[k] = File(r.r, w.ch, w.n, w.x)], "ok", <<>>)
(* every other sample, or so, of all the sixteen bits *)
Pattern(n, a, b) == [i \in 1..n |-> ((a * (i - 1) + b) % 65536) - 32768]
Floats(st, w) ==     \* the array that is read
    LET a == NewCell(st, Arr("f", [i \in 1..Len(w.x) |-> w.x[i] \div 8192]))
        b == NewCell(a, Win(Len(a.h), 0, <<w.ch, w.n>>))
    IN  IF w.ch = 1 THEN [s |-> a, x |-> Last(a)] ELSE [s |-> b, x |-> Last(b)]

RECURSIVE InOrder(_), InsEdge(_, _)
InsEdge(q, e) == IF q = <<>> THEN <<e>>
                 ELSE IF e[1] < q[1][1] \/ (e[1] = q[1][1] /\ e[2] <= q[1][2]) THEN <<e>> \o q ELSE <<q[1]>> \o InsEdge(Tail(q), e)
InOrder(q) == IF q = <<>> THEN <<>> ELSE InsEdge(InOrder(Tail(q)), Head(q))
Dot(g) == <<[i \in 1..g.n |-> i - 1], InOrder(g.e)>>

MApply(st, f, op) ==
    LET o == op[1]
        no == MR(st, f, "skip", <<>>)
        there(i) == f.au[i]
    IN
    CASE o = "anew" -> LET x == IF op[3] = 0 THEN Nil ELSE st.v[op[3]]
                           a == Assign([st EXCEPT !.v[Root(op[2])] = Nil], <<"x", Root(op[2])>>, x)
                       IN  IF ~IsNil(x) /\ ~(IsRef(x) /\ IsMap(st.h, x)) THEN no
                           ELSE IF a.ok # "ok" THEN no ELSE MR(a.s, [f EXCEPT !.au[op[2]] = TRUE], "ok", <<>>)
      [] o = "awrite" -> IF ~there(op[2]) THEN no ELSE AWrite(st, f, op[2], op[3], Written(st.h, st.v[op[4]]))
      \* samples made up: type, channels, length, and how
      [] o = "apat" -> IF ~there(op[2]) THEN no
                       ELSE LET ch == op[5]
                                n == op[6]
                            IN  AWrite(st, f, op[2], op[3], [ok |-> "ok", ch |-> IF ch = 0 THEN 1 ELSE ch, n |-> n, x |-> Pattern(IF ch = 0 THEN n ELSE ch * n, op[7], op[8])])
      [] o \in {"aread", "aload"} ->
           IF ~there(op[2]) THEN no
           ELSE LET w == f.fl[op[3]]
                    a == SetRate(st, op[2], w.rate)
                IN  IF w.is = "unknown" THEN no
                    ELSE IF w.is = "none" THEN MR(st, f, "throw", <<>>)
                    ELSE IF a.ok # "ok" THEN no
                    ELSE IF o = "aread" THEN MR(a.s, f, "ok", <<"q", w.ch, w.n, w.x>>)
                    ELSE IF \E i \in 1..Len(w.x) : w.x[i] % 8192 # 0 THEN no
                    ELSE LET b == Floats(a.s, w)
                             c == Assign(b.s, <<"x", op[4]>>, b.x)
                         IN  IF c.ok # "ok" THEN no ELSE MR(c.s, f, "ok", <<>>)
      [] o = "agarb" -> MR(st, [f EXCEPT !.fl[op[2]] = NoFile], "ok", <<>>)
      [] o = "alost" -> LET r == RateOf(st, op[2]) IN
                        IF ~there(op[2]) THEN no
                        ELSE IF r.ok # "ok" THEN no ELSE MR(r.s, f, "throw", <<>>)
      [] o = "gnew" -> IF Len(f.gr) = 3 THEN no ELSE MR(st, [f EXCEPT !.gr = Append(@, [n |-> 0, e |-> <<>>])], "ok", <<>>)
      [] o = "gvert" -> IF op[2] > Len(f.gr) THEN no ELSE MR(st, [f EXCEPT !.gr[op[2]].n = @ + 1], "ok", <<"q", f.gr[op[2]].n>>)
      [] o = "gedge" -> IF op[2] > Len(f.gr) THEN no
                        ELSE IF op[3] < 0 \/ op[4] < 0 THEN MR(st, f, "throw", <<>>)
                        \* Excluded: vertices that were not added
                        ELSE IF op[3] >= f.gr[op[2]].n \/ op[4] >= f.gr[op[2]].n THEN no
                        ELSE MR(st, [f EXCEPT !.gr[op[2]].e = Append(@, <<op[3], op[4]>>)], "ok", <<>>)
      [] o = "gwrite" -> IF op[2] > Len(f.gr) THEN no ELSE MR(st, [f EXCEPT !.dot[op[3]] = Dot(f.gr[op[2]])], "ok", <<>>)
      [] o = "gfile" -> IF f.dot[op[2]] = <<>> THEN no ELSE MR(st, f, "ok", <<"q", f.dot[op[2]][1], f.dot[op[2]][2]>>)
      [] o = "glost" -> IF op[2] > Len(f.gr) THEN no ELSE MR(st, f, "throw", <<>>)
=============================================================================
