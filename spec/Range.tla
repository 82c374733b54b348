-------------------------------- MODULE Range --------------------------------
(***************************************************************************)
(* Ranges, the index type, and the constructors of arrays                  *)
(***************************************************************************)
EXTENDS StoreStep

NotAfter(t, a, b, incl) ==
    LET p == IF t = "c" THEN a % 256 ELSE a
        q == IF t = "c" THEN b % 256 ELSE b
    IN  IF incl THEN p <= q ELSE p < q
PlusIn(t, a, b) == IF t = "c" THEN ((a + b + 128) % 256) - 128 ELSE a + b
RECURSIVE StepsFrom(_, _, _, _, _, _)
StepsFrom(t, lo, hi, st, incl, acc) ==
    IF ~NotAfter(t, lo, hi, incl) THEN acc
    ELSE IF Len(acc) > 260 THEN <<>>
    ELSE StepsFrom(t, PlusIn(t, lo, st), hi, st, incl, Append(acc, lo))
(* Excluded: limits of different types, ranges that never end *)
RangeOf(s, lo, hi, step, incl) ==
    IF ~IsScalar(lo) \/ ~IsScalar(hi) \/ lo[1] \in {"y", "z"} \/ lo[1] # hi[1] THEN [ok |-> "skip", x |-> <<>>]
    ELSE IF U \in {lo[2], hi[2]} THEN [ok |-> "skip", x |-> <<>>]
    ELSE IF ~NotAfter(lo[1], lo[2], hi[2], incl) THEN [ok |-> "ok", x |-> <<>>]
    ELSE LET d == ToElem(s, lo[1], step) IN
         IF d.ok # "ok" THEN d
         ELSE IF d.x = U \/ d.x <= 0 THEN [ok |-> "skip", x |-> <<>>]
         ELSE LET q == StepsFrom(lo[1], lo[2], hi[2], d.x, incl, <<>>) IN
              IF q = <<>> THEN [ok |-> "skip", x |-> q] ELSE [ok |-> "ok", x |-> q]
(* the value that elements pushed one by one on nothing make *)
Pushed(s, t, q) == IF q = <<>> THEN [s |-> s, x |-> Nil]
                   ELSE IF Len(q) = 1 THEN [s |-> s, x |-> <<t, q[1]>>]
                   ELSE LET n == NewCell(s, Arr(t, q)) IN [s |-> n, x |-> Last(n)]
GiveRange(s, lo, hi, step, incl, z) ==
    LET r == RangeOf(s, lo, hi, step, incl) IN
    IF r.ok # "ok" THEN Out(s, Nil, r.ok)
    ELSE LET p == Pushed(s, lo[1], r.x) IN Assign(p.s, <<"x", z>>, p.x)

(* a variable made by pushing some values in turn *)
RECURSIVE PushAll(_, _, _)
PushAll(s, sl, xs) ==
    IF xs = <<>> THEN Done(s)
    ELSE LET r == Push(s, sl, <<"t", Head(xs)>>) IN
         IF r.ok # "ok" THEN r ELSE PushAll(r.s, sl, Tail(xs))
FromList(s, xs, z) ==
    LET n == Len(s.v) + 1
        r == PushAll([s EXCEPT !.v = Append(@, Nil)], <<"x", n>>, xs)
        t == [r.s EXCEPT !.v = SubSeq(@, 1, n - 1)]
    IN  IF r.ok = "skip" THEN Skip(s) ELSE IF r.ok # "ok" THEN Out(t, Nil, r.ok)
        ELSE Assign(t, <<"x", z>>, r.s.v[n])

(* the index type: a number with a false form *)
Ind1(n, o) == CASE o = "~" -> <<-(n + 1), n>> [] o = "++" -> <<n + 1, n + 1>> [] o = "--" -> <<n - 1, n - 1>>
                [] o = "p++" -> <<n, n + 1>> [] o = "p--" -> <<n, n - 1>> [] o = "+3" -> <<n + 3, n>> [] o = "=~" -> <<-(n + 1), -(n + 1)>>
RECURSIVE IndRun(_, _, _)
IndRun(n, q, acc) ==    \* value of each expression, then the index and its truth
    IF q = <<>> THEN acc
    ELSE LET r == Ind1(n, Head(q)) IN IndRun(r[2], Tail(q), Append(acc, <<r[1], BoolN(r[1] >= 0), r[2], BoolN(r[2] >= 0)>>))

RgApply(s, op) ==
    LET o == op[1] IN
    CASE o = "range" ->        \* kind, lo, hi, step, z
           LET lo == Operand(s, op[3]) IN
           IF lo.ok # "ok" THEN lo
           ELSE LET hi == Operand(lo.s, op[4]) IN
                IF hi.ok # "ok" THEN hi
                ELSE LET st == Operand(hi.s, op[5]) IN
                     IF st.ok # "ok" THEN st
                     ELSE LET b == Get(st.s, st.r) IN
                          \* Excluded: a step that is made of an array
                          IF IsRef(b) THEN Skip(s)
                          ELSE GiveRange(st.s, Get(st.s, lo.r), Get(st.s, hi.r), b, op[2] = "range", op[6])
      [] o = "range1" ->
           LET hi == Operand(s, op[3]) IN
           IF hi.ok # "ok" THEN hi
           ELSE LET x == Get(hi.s, hi.r)
                    one == IF x[1] \in {"f", "d"} THEN 4 ELSE 1
                IN  IF ~IsScalar(x) \/ x[1] \in {"y", "z"} THEN Skip(s)
                    ELSE GiveRange(hi.s, <<x[1], IF op[2] = "range" THEN one ELSE 0>>, x, <<"i", 1>>, op[2] = "range", op[4])
      [] o = "ind" -> Out(s, <<"q", IndRun(op[2], op[3], <<>>)>>, "ok")
      [] o = "ctorn" ->        \* size, value
           LET b == Build(s, op[3])
               x == b.x
           IN  IF ~IsScalar(x) \/ x[1] = "z" THEN Throw(s)
               ELSE LET p == IF op[2] = 0 THEN LET n == NewCell(s, Arr(x[1], <<>>)) IN [s |-> n, x |-> Last(n)]
                             ELSE Pushed(s, x[1], [i \in 1..op[2] |-> x[2]])
                    IN  Assign(p.s, <<"x", op[4]>>, p.x)
      [] o = "ctorl" -> LET b == BuildSeq(s, op[2], <<>>) IN FromList(b.s, b.x, op[3])
      [] o = "ctors" -> LET b == BuildSeq(s, op[2], <<>>) IN FromList(b.s, b.x, op[4])       \* strings; whether their number is told
      [] o = "ctori" -> LET n == NewCell(s, Arr("i", op[2])) IN Assign(n, <<"x", op[3]>>, Last(n))
      [] o = "ctorc" -> LET n == NewCell(s, Arr("c", op[2])) IN Assign(n, <<"x", op[3]>>, Last(n))
      [] o \in {"ctorw", "mkview"} ->      \* a view of an array of its own, of one value throughout or in the first place
           LET x == op[3]
               d == op[2]
               t == IF IsNil(x) THEN "f" ELSE x[1]
               v == IF IsNil(x) THEN 0 ELSE x[2]
           IN  IF (~IsNil(x) /\ ~IsScalar(x)) \/ Prod(d) = 0 \/ t = "z" THEN Skip(s)
               \* Excluded: filling with nothing
               ELSE IF o = "ctorw" /\ IsNil(x) THEN Skip(s)
               ELSE LET n == NewCell(s, Arr(t, [i \in 1..Prod(d) |-> IF i = 1 \/ o = "ctorw" THEN v ELSE UOf(t)]))
                        w == NewCell(n, Win(Len(n.h), 0, d))
                    IN  Assign(w, <<"x", op[4]>>, Last(w))
RgOps == {"range", "range1", "ind", "ctorn", "ctorl", "ctors", "ctori", "ctorc", "ctorw", "mkview"}
RgStep(st, op) ==
    IF op[1] \in RgOps
    THEN LET a == RgApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE] ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE Step(st, op)
=============================================================================
