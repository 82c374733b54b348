-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* What is sent to gnuplot: commands and data, as lines.  Each instance    *)
(* has a gnuplot of its own.  Blank lines, and blanks before a line, are   *)
(* left out here as they mean nothing.                                     *)
(*                                                                         *)
(* f: for each instance the lines sent so far                              *)
(***************************************************************************)
EXTENDS JsonText

F0 == <<>>
PR(st, f, ok, r) == [s |-> st, f |-> f, ok |-> ok, r |-> r]
RECURSIVE Upto(_, _), LinesOf(_, _), NoBlanks(_)
Upto(t, p) == IF p > Len(t) THEN p ELSE IF t[p] = 10 THEN p ELSE Upto(t, p + 1)
NoBlanks(t) == IF t # <<>> /\ t[1] = 32 THEN NoBlanks(Tail(t)) ELSE t
LinesOf(t, acc) == IF t = <<>> THEN acc
                   ELSE LET n == Upto(t, 1)
                            l == NoBlanks(SubSeq(t, 1, n - 1))
                        IN  LinesOf(From(t, n + 1), IF l = <<>> THEN acc ELSE Append(acc, l))
Sent(ok, ls) == [ok |-> ok, ls |-> ls]
(* one item of an array: the lines it makes *)
Item1(h, x) ==
    LET t == IF IsNil(x) THEN "n" ELSE IF IsRef(x) THEN (IF IsMap(h, x) THEN "m" ELSE AType(h, x[2])) ELSE x[1]
        n == IF IsRef(x) THEN Size(h, x) ELSE 1
        d == IF IsRef(x) /\ t # "m" THEN ShapeOf(h, x) ELSE <<1>>
        el(i) == IF IsRef(x) THEN Item(h, x[2], i)[2] ELSE x[2]
        num(v) == IF IsInt(t) THEN IntText(v) ELSE RealText(v)
        end == <<<<101>>>>
    IN  IF t \notin {"c", "i", "l", "f", "d"} THEN Sent("throw", <<>>)
        ELSE IF t = "c"
        \* Excluded: single characters, views of strings, zero bytes
        THEN IF ~IsRef(x) \/ IsView(h, x) \/ HasU(h, x) THEN Sent("skip", <<>>)
             ELSE IF \E i \in 1..n : Codes(h, x)[i] = 0 THEN Sent("skip", <<>>) ELSE Sent("ok", LinesOf(Codes(h, x), <<>>))
        ELSE IF \E i \in 0..n - 1 : el(i) = U \/ (~IsInt(t) /\ ~SixDigits(el(i))) THEN Sent("skip", <<>>)
        ELSE IF Len(d) = 1 THEN Sent("ok", [i \in 1..n |-> num(el(i - 1))] \o end)
        ELSE IF Len(d) = 2 THEN Sent("ok", [j \in 1..d[2] |-> JoinSep([i \in 1..d[1] |-> num(el((i - 1) * d[2] + j - 1))], <<32>>)] \o end)
        ELSE Sent("throw", <<>>)
RECURSIVE PlotItems(_, _, _)
PlotItems(h, xs, acc) == IF xs = <<>> THEN Sent("ok", acc)
                     ELSE LET r == Item1(h, Head(xs)) IN
                          IF r.ok # "ok" THEN Sent(r.ok, acc) ELSE PlotItems(h, Tail(xs), acc \o r.ls)
Heading(w) == IF w = <<>> THEN <<>> ELSE <<B("set term post eps"), B("set output ") \o Quoted(w)>>
PApply(st, f, op) ==
    LET o == op[1]
        no == PR(st, f, "skip", <<>>)
    IN
    CASE o = "pnew" -> IF Len(f) = 3 THEN no ELSE PR(st, Append(f, <<>>), "ok", <<>>)
      [] o = "pwrite" ->     \* an instance, a variable, the name of a file
           LET x == st.v[op[3]]
               \* Excluded: anything but dynamically typed arrays
               fit == IsNil(x) \/ (IsRef(x) /\ ~IsMap(st.h, x) /\ ~IsView(st.h, x) /\ AType(st.h, x[2]) = "v")
               r == PlotItems(st.h, IF IsNil(x) THEN <<>> ELSE [i \in 1..Size(st.h, x) |-> Item(st.h, x[2], i - 1)], <<>>)
           IN  IF op[2] > Len(f) \/ ~fit THEN no
               ELSE IF r.ok = "skip" THEN no
               ELSE PR(st, [f EXCEPT ![op[2]] = @ \o Heading(op[4]) \o r.ls], r.ok, <<>>)
      [] o = "pread" -> IF op[2] > Len(f) THEN no ELSE PR(st, f, "throw", <<>>)
      [] o = "pend" -> IF f = <<>> THEN no ELSE PR(st, F0, "ok", <<"q", f>>)
POps == {"pnew", "pwrite", "pread", "pend"}
=============================================================================
