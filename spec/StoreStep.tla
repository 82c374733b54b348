------------------------------ MODULE StoreStep ------------------------------
(***************************************************************************)
(* One step of a program over Store, and what is to be observed of it      *)
(***************************************************************************)
EXTENDS Store, Json

(***************************************************************************)
(* Compact form of a state for the replayer                                *)
(***************************************************************************)
CellObs(c) == IF c.k = "w" THEN <<"w", c.b, c.o, c.d>>
              ELSE IF c.k = "m" THEN <<"m", c.e>> ELSE <<"a", c.t, c.e>>
Obs(st) == <<st.v, [i \in 1..Len(st.h) |-> CellObs(st.h[i])]>>

(* Is every surviving cell an old one, and are there fewer of them? *)
Drops(old, raw) ==
    LET ord == Dfs(raw.h, raw.v, <<>>) IN
    /\ \A i \in 1..Len(ord) : ord[i] <= Len(old.h)
    /\ Len(ord) < Len(old.h)
    /\ Len(raw.h) = Len(old.h)

(* The effect of an operation, with everything not reachable released *)
Step(st, op) ==
    LET a == Apply0(st, op) IN
    IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
    ELSE IF ~Acyclic(a.s.h) THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]   \* Excluded: cycles
    \* Excluded: keys with elements never given a value
    ELSE IF \E i \in 1..Len(a.s.h) : a.s.h[i].k = "m" /\ \E j \in 1..Len(a.s.h[i].e) : HasU(a.s.h, a.s.h[i].e[j][1])
         THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
    \* Excluded: changing the array that serves as a key of a map
    ELSE IF \E i \in 1..Len(a.s.h) : a.s.h[i].k = "m" /\ ~SortedMap(a.s.h, a.s.h[i])
         THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
    ELSE [a |-> a, t |-> Canon(a.s), drop |-> Drops(st, a.s)]
ResOf(a) == IF a.ok = "ok" /\ a.r[1] = "q" THEN a.r ELSE <<>>

(* A whole program: its steps with what is expected after each *)
RECURSIVE RunFrom(_, _, _)
RunFrom(st, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET q == Step(st, Head(ops)) IN
         IF q.a.ok = "skip" THEN RunFrom(st, Tail(ops), acc)
         ELSE RunFrom(q.t, Tail(ops), Append(acc, <<Head(ops), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
Empty(n) == [v |-> [j \in 1..n |-> Nil], h |-> <<>>]
Run(n, ops) == RunFrom(Empty(n), ops, <<>>)
=============================================================================
