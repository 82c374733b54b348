----------------------------- MODULE ModulesGen -----------------------------
(***************************************************************************)
(* Generation of histories of loaders and instances                        *)
(***************************************************************************)
EXTENDS Modules, StoreGen
CONSTANT MaxN
VARIABLE f

MInit == s = Empty(NV + NI) /\ hist = <<>> /\ last = <<>> /\ f = F0
Dead(src) == IF src[1] \in {"P", "A"} /\ src[3] # <<>> THEN <<"C", src[2], src[3]>> ELSE src
MArg(st) == LET k == R(1..12) IN
            IF k = 1 THEN <<"L", Str(B("null"))>> ELSE IF k = 2 THEN <<"L", Str(B("throw"))>>
            ELSE IF k = 3 THEN <<"L", Str(B("nest"))>> ELSE IF k = 4 THEN <<"L", Str(B("nestthrow"))>>
            ELSE Dead(RSrc(st))
Loaded(ff) == {i \in 1..3 : ff.ld[i].lib # ""}
Living(ff) == {p \in 1..NI : Usable(ff, p)}
MLoad(ff) == LET e == {i \in 1..3 : ff.ld[i].lib = ""} IN
             IF e = {} THEN <<"mkill", R(1..3)>>
             ELSE <<"mload", R(e), Pick(<<"pa", "pa", "pa", "pb", "pb", "pk", "pn", "pg", "none">>), Pick(<<1, 1, 0>>)>>
XOp(st, ff, c) ==
    LET l == Loaded(ff)
        i == Living(ff)
    IN  CASE c = "mload" -> MLoad(ff)
          [] c \in {"mcreate", "mcreate0", "mkill"} /\ l = {} -> MLoad(ff)
          [] c = "mcreate" -> <<"mcreate", R(l), MArg(st)>>
          [] c = "mcreate0" -> <<"mcreate0", R(l)>>
          [] c = "mkill" -> <<"mkill", R(l)>>
          [] c = "muse" /\ i # {} -> <<"muse", R(i), Dead(RSrc(st)), R(Vars)>>
          [] c = "mput" /\ i # {} -> <<"mput", R(i), Dead(RSrc(st))>>
          [] c \in {"muse", "mput"} -> MLoad(ff)
          [] OTHER -> GenOp(st, c)
XCats == <<"mload", "mload", "mload", "mcreate", "mcreate", "mcreate", "mcreate", "mcreate", "mcreate", "mcreate0", "mkill", "mkill", "mkill", "muse", "muse", "muse", "muse", "mput", "mput", "share", "lit", "nil", "put", "get", "push", "copy">>
XStepOf(st, ff, op) ==
    IF op[1] \in MOps
    THEN LET a == MApply(st, ff, op) IN
         IF a.ok = "skip" THEN [ok |-> "skip", s |-> st, f |-> ff, r |-> <<>>]
         ELSE IF ~Acyclic(a.s.h) THEN [ok |-> "skip", s |-> st, f |-> ff, r |-> <<>>]
         ELSE [ok |-> a.ok, s |-> Canon(a.s), f |-> a.f, r |-> IF op[1] \in {"muse", "mput"} \/ a.ok # "ok" THEN <<>> ELSE a.r]
    ELSE LET a == Step(st, op) IN [ok |-> a.a.ok, s |-> a.t, f |-> ff, r |-> ResOf(a.a)]
MObs(st) == Obs(Canon(MVisible(st)))
XNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {XOp(s, f, Pick(XCats))} :
       \E q \in {XStepOf(s, f, op)} :
         IF q.ok = "skip" \/ ~InBounds(q.s) THEN UNCHANGED <<s, f, hist, last>>
         ELSE /\ s' = q.s /\ f' = q.f /\ last' = op
              /\ hist' = Append(hist, <<op, q.ok, q.r, MObs(q.s), FALSE>>)
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every short history of few operations                                   *)
(***************************************************************************)
LS(w) == <<"L", Str(B(w))>>
Few == <<<<"mload", 1, "pa", 1>>, <<"mload", 2, "pa", 1>>, <<"mload", 2, "pb", 0>>, <<"mload", 1, "pk", 1>>, <<"mload", 2, "pn", 1>>, <<"mload", 1, "none", 0>>,
         <<"mcreate", 1, <<"L", <<"i", 7>>>>>>, <<"mcreate", 2, LS("a")>>, <<"mcreate", 1, LS("throw")>>, <<"mcreate", 1, LS("nest")>>, <<"mcreate", 2, LS("nestthrow")>>,
         <<"mkill", 1>>, <<"mkill", 2>>>>
RECURSIVE XRun(_, _, _, _)
XRun(st, ff, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == XStepOf(st, ff, Head(os)) IN
         IF q.ok = "skip" THEN <<>>        \* a history without it is another
         ELSE XRun(q.s, q.f, Tail(os), Append(acc, <<Head(os), q.ok, q.r, MObs(q.s), FALSE>>))
(* a loader comes first, and once everything was tried all is given up *)
XInit == last \in [1..MaxN -> 1..Len(Few)] /\ last[1] \in {1, 2, 3} /\ s = Empty(NV + NI) /\ hist = <<>> /\ f = F0
XAll == /\ last # <<0>>
        /\ hist' = XRun(Empty(NV + NI), F0, [i \in 1..MaxN |-> Few[last[i]]], <<>>)
        /\ last' = <<0>> /\ s' = s /\ f' = f
        /\ IF hist' = <<>> THEN TRUE ELSE PrintT("T" \o ToJson(hist'))

(***************************************************************************)
(* In the model                                                            *)
(***************************************************************************)
(* the events of the history so far *)
Told == Concat([i \in 1..Len(hist) |-> IF hist[i][1][1] \in {"mload", "mcreate", "mcreate0", "mkill"} /\ hist[i][2] = "ok" THEN hist[i][3][2] ELSE <<>>])
Times(e) == Cardinality({i \in 1..Len(Told) : Told[i] = e})
(* made once, gone once, and gone exactly when no loader has it *)
Lives == \A l \in {"pa", "pb", "pk"} :
            /\ Times(Opened(l)) = Times(Closed(l)) + (IF Users(f, l) > 0 THEN 1 ELSE 0)
            /\ \A id \in 1..f.n : /\ Times(Made(l, id)) <= 1
                                  /\ Times(Gone(l, id)) = Times(Made(l, id)) - (IF \E p \in 1..NI : (f.in[p].lib = l /\ f.in[p].id = id) \/ (l = "pb" /\ f.in[p].nest = id) THEN 1 ELSE 0)
            /\ (\E p \in 1..NI : f.in[p].lib = l) => Users(f, l) > 0
Held == \A p \in 1..NI : f.in[p].slot = 0 => s.v[Root(p)] = Nil
=============================================================================
