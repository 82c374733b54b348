-------------------------------- MODULE StrAll --------------------------------
(***************************************************************************)
(* Every string function on every short string over a small alphabet       *)
(***************************************************************************)
EXTENDS StrFun
CONSTANTS MaxN, Letters
RECURSIVE TRun(_, _, _)
TRun(st, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE LET op == Head(ops) IN
         IF op[1] \in TOps
         THEN LET a == TApply(st, op)
                  t == Canon(a.s)
                  shown == IF op[1] = "tre" THEN SubSeq(op, 1, 5) ELSE IF op[1] = "trepl" THEN SubSeq(op, 1, 4) ELSE op
              IN  IF a.ok = "skip" THEN TRun(st, Tail(ops), acc)
                  ELSE TRun(t, Tail(ops), Append(acc, <<shown, a.ok, ResOf(a), Obs(t), FALSE>>))
         ELSE LET a == Step(st, op) IN
              TRun(a.t, Tail(ops), Append(acc, <<op, a.a.ok, ResOf(a.a), Obs(a.t), a.drop>>))
A == <<"ch", 97>>
RECURSIVE Eleven(_)
Eleven(i) == LET g == <<"grp", i, <<"opt", IF i % 2 = 0 THEN <<"any">> ELSE A>>>> IN IF i = 11 THEN g ELSE <<"cat", g, Eleven(i + 1)>>
Regexes == <<A, Eleven(1), <<"any">>, <<"star", A>>, <<"plus", <<"any">>>>, <<"cat", <<"bol">>, A>>, <<"cat", A, <<"eol">>>>,
             <<"grp", 1, <<"alt", <<"ch", 44>>, <<"cat", A, <<"grp", 2, <<"opt", <<"ch", 32>>>>>>>>>>>>,
             <<"cat", <<"grp", 1, <<"plus", <<"set", <<97, 32>>>>>>>>, <<"grp", 2, <<"star", <<"not", <<97>>>>>>>>>>,
             <<"cat", <<"star", <<"any">>>>, A>>,
             <<"alt", A, <<"cat", A, <<"ch", 44>>>>>>>>
Formats == <<<<>>, <<<<"t", <<120, 97>>>>>>, <<<<"g", 0>>, <<"g", 0>>>>, <<<<"t", <<45>>>>, <<"g", 1>>>>>>
Sub(t) == <<"set", 1, <<>>, <<"L", Str(t)>>>>
Fns == <<"strip", "upper", "lower">>
OpsOn(t) ==
    <<Sub(t)>>
    \o Concat([i \in 1..4 |-> [n \in 1..4 |-> <<"tsplit", 1, <<<<44>>, <<97>>, <<97, 97>>, <<44, 32>>>>[i], n - 1, 2>>]])
    \o <<<<"tsplit", 1, <<44>>, 0, 2>>, <<"tjoin", 2, <<44>>, 3>>, <<"tsplit", 1, <<97, 97>>, 0, 2>>, <<"tjoin", 2, <<120>>, 3>>,
         <<"twords", 1, 0, 2>>, <<"twords", 1, 2, 2>>, <<"twords", 1, 3, 2>>, <<"tlen", 1>>>>
    \o Concat([i \in 1..3 |-> <<<<"tfun", 1, Fns[i], 2>>, <<"tinto", 1, Fns[i], 3>>, <<"set", 3, <<>>, <<"P", 1, <<>>>>>>, <<"tin", 3, Fns[i]>>, Sub(t)>>])
    \o Concat([i \in 1..Len(Regexes) |->
                <<<<"tre", 1, ReText(Regexes[i]), "search", 2, Regexes[i]>>, <<"tre", 1, ReText(Regexes[i]), "match", 2, Regexes[i]>>>>
                \o (IF Nullable(Regexes[i]) THEN <<>>
                    ELSE Concat([k \in 1..(IF Groups(Regexes[i]) = 0 THEN 3 ELSE 4) |->
                                  <<<<"trepl", 1, ReText(Regexes[i]), PartsText(Formats[k]), Regexes[i], Formats[k]>>, Sub(t)>>]))])
AInit == s = Empty(NV) /\ hist = <<>> /\ last \in UNION {[1..n -> Letters] : n \in 0..MaxN}
ANext == /\ hist = <<>>
         /\ \E p \in {TRun(s, OpsOn(last), <<>>)} : hist' = <<Len(p)>> /\ PrintT("T" \o ToJson(p))
         /\ UNCHANGED <<s, last>>
=============================================================================
