------------------------------- MODULE Modules -------------------------------
(***************************************************************************)
(* Loaders of modules and the instances they make.  A library is open      *)
(* while some loader of it lives; an instance lives as long as its loader. *)
(* What an instance was given is held in variables of the store that no    *)
(* program sees, one for each instance, after the NHidden it does see.     *)
(*                                                                         *)
(* f = [ld: slots for loaders, in: places for instances, n: how many       *)
(* instances of any library there have been]                               *)
(***************************************************************************)
EXTENDS StoreStep, Text
CONSTANT NHidden, NI

NoLd == [lib |-> "", file |-> FALSE]
NoIn == [slot |-> 0, id |-> 0, lib |-> "", nest |-> 0]
F0 == [ld |-> [i \in 1..3 |-> NoLd], in |-> [i \in 1..NI |-> NoIn], n |-> 0]
(* libraries: two file handlers, a module that is none, a library that is  *)
(* no module, a file that is no library, nothing of that name              *)
Libs == <<"pa", "pb", "pk", "pn", "pg", "none">>
LibNo(l) == CHOOSE i \in 1..6 : Libs[i] = l
Root(i) == NHidden + i
(* Events as numbers; what went wrong is 0 *)
Ev(what, lib, id) == what * 100000 + LibNo(lib) * 1000 + id
Opened(l) == Ev(1, l, 0)
Made(l, id) == Ev(2, l, id)
Gone(l, id) == Ev(3, l, id)
Closed(l) == Ev(4, l, 0)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})

Users(f, l) == Cardinality({i \in 1..3 : f.ld[i].lib = l}) + (IF l = "pb" THEN Cardinality({i \in 1..NI : f.in[i].nest # 0}) ELSE 0)
Free(f) == {i \in 1..NI : f.in[i].slot = 0}
MR(st, f, ok, r, ev) == [s |-> st, f |-> f, ok |-> ok, r |-> <<"q", Ascending(ev)>>]
Load(st, f, k, lib, isfile) ==
    IF lib \in {"pa", "pb", "pk"}
    THEN MR(st, [f EXCEPT !.ld[k] = [lib |-> lib, file |-> isfile]], "ok", <<>>, IF Users(f, lib) = 0 THEN {Opened(lib)} ELSE {})
    ELSE MR(st, f, "ok", <<>>, IF lib = "pn" THEN {0, Opened(lib), Closed(lib)} ELSE {0})
Says(h, x, w) == IsStr(h, x) /\ Codes(h, x) = w
(* x was given; p is a free place *)
Create(st, f, k, x, p) ==
    LET lib == f.ld[k].lib
        nest == lib = "pa" /\ (Says(st.h, x, B("nest")) \/ Says(st.h, x, B("nestthrow")))
        id == IF nest THEN f.n + 2 ELSE f.n + 1
        in == [slot |-> k, id |-> id, lib |-> lib, nest |-> IF nest THEN f.n + 1 ELSE 0]
        open == IF nest /\ Users(f, "pb") = 0 THEN {Opened("pb")} ELSE {}
        a == Assign(st, <<"x", Root(p)>>, x)
    IN  IF a.ok # "ok" THEN MR(st, f, "skip", <<>>, {})
        ELSE IF Says(st.h, x, B("null")) \/ Says(st.h, x, B("throw")) THEN MR(st, f, "ok", <<>>, {0})
        ELSE IF nest /\ Says(st.h, x, B("nestthrow"))
             THEN MR(st, [f EXCEPT !.n = @ + 1], "ok", <<>>, {0, Made("pb", f.n + 1), Gone("pb", f.n + 1)} \cup open \cup (IF open = {} THEN {} ELSE {Closed("pb")}))
        ELSE MR(a.s, [f EXCEPT !.in[p] = in, !.n = id], "ok", <<>>,
                {Made(lib, id)} \cup (IF nest THEN {Made("pb", f.n + 1)} ELSE {}) \cup open \cup (IF f.ld[k].file /\ lib = "pk" THEN {0} ELSE {}))
RECURSIVE Forget(_, _)
Forget(st, ps) == IF ps = {} THEN st ELSE LET p == CHOOSE p \in ps : TRUE IN Forget([st EXCEPT !.v[Root(p)] = Nil], ps \ {p})
Kill(st, f, k) ==
    LET mine == {i \in 1..NI : f.in[i].slot = k}
        nests == {i \in mine : f.in[i].nest # 0}
        g == [f EXCEPT !.ld[k] = NoLd, !.in = [i \in 1..NI |-> IF i \in mine THEN NoIn ELSE @[i]]]
        shut(l) == IF Users(f, l) > 0 /\ Users(g, l) = 0 THEN {Closed(l)} ELSE {}
    IN  MR(Forget(st, mine), g, "ok", <<>>, {Gone(f.in[i].lib, f.in[i].id) : i \in mine} \cup {Gone("pb", f.in[i].nest) : i \in nests} \cup shut(f.ld[k].lib) \cup shut("pb"))

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
MOps == {"mload", "mcreate", "mcreate0", "muse", "mput", "mkill"}
Usable(f, p) == f.in[p].slot # 0 /\ f.in[p].lib # "pk"
MVisible(st) == [st EXCEPT !.v = SubSeq(@, 1, NHidden)]
Inst(st, x) == <<"v", <<x>>>>
MApply(st, f, op) ==
    LET o == op[1]
        no == MR(st, f, "skip", <<>>, {})
        bad(y) == y.ok # "ok" \/ LET x == Get(y.s, y.r) IN IsView(y.s.h, x) \/ HasU(y.s.h, x)
    IN  CASE o = "mload" -> IF f.ld[op[2]].lib # "" THEN no ELSE Load(st, f, op[2], op[3], op[4] = 1)
          [] o \in {"mcreate", "mcreate0"} ->
               LET y == IF o = "mcreate" THEN Operand(st, op[3]) ELSE Operand(st, <<"L", Nil>>) IN
               IF f.ld[op[2]].lib = "" \/ Free(f) = {} THEN no
               ELSE IF y.ok = "throw" THEN [no EXCEPT !.s = y.s, !.ok = "throw"]
               ELSE IF bad(y) THEN no
               ELSE Create(y.s, f, op[2], Get(y.s, y.r), CHOOSE p \in Free(f) : \A q \in Free(f) : p <= q)
          \* what it was given, what it is asked, and a text of its own
          [] o = "muse" ->
               IF ~Usable(f, op[2]) THEN no
               ELSE LET y == Operand(st, op[3])
                        x == Get(y.s, y.r)
                        t == NewCell(y.s, Arr("c", B(f.in[op[2]].lib)))
                        w == Boxed(t, x)
                        u == NewCell(w.s, Arr("v", <<t.v[Root(op[2])], w.x, Ref(Len(t.h))>>))
                        a == Assign(u, <<"x", op[4]>>, Last(u))
                    IN  IF y.ok = "throw" THEN [no EXCEPT !.s = y.s, !.ok = "throw"]
                        ELSE IF bad(y) \/ a.ok # "ok" THEN no ELSE [no EXCEPT !.s = a.s, !.ok = "ok"]
          [] o = "mput" ->
               IF ~Usable(f, op[2]) THEN no
               ELSE LET y == Operand(st, op[3])
                        a == Assign(y.s, <<"x", Root(op[2])>>, Get(y.s, y.r))
                    IN  IF y.ok = "throw" THEN [no EXCEPT !.s = y.s, !.ok = "throw"]
                        ELSE IF bad(y) \/ a.ok # "ok" THEN no ELSE [no EXCEPT !.s = a.s, !.ok = "ok"]
          [] o = "mkill" -> IF f.ld[op[2]].lib = "" THEN no ELSE Kill(st, f, op[2])
=============================================================================
