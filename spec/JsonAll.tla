------------------------------ MODULE JsonAll ------------------------------
(***************************************************************************)
(* All texts of up to MaxN tokens, read and what is left of them looked at *)
(* ; all values of a small universe, written and read back.                *)
(***************************************************************************)
EXTENDS JsonText
CONSTANTS MaxN, Rich, What
VARIABLES toks, case, done

Tokens == IF Rich THEN <<"[", "]", "{", "}", ",", ":", "\"a\"", "1", "1.5", "true", "null", "x", " ", "\"", "\\", "-2">>
          ELSE <<"[", "]", "{", "}", ",", ":", "\"a\"", "1", "1.5", "x", "\"">>
TextOf(ts) == Concat([i \in 1..Len(ts) |-> B(Tokens[ts[i]])])

RECURSIVE JRun(_, _, _, _)
JRun(st, q, ops, acc) ==
    IF ops = <<>> THEN acc
    ELSE IF Head(ops)[1] \in JOps
    THEN LET a == JApply(st, q, Head(ops))
             t == Canon(a.s)
         IN  IF a.ok = "skip" THEN acc
             ELSE JRun(t, a.q, Tail(ops), Append(acc, <<Head(ops), a.ok, a.r, Obs(t), FALSE>>))
    ELSE LET q2 == Step(st, Head(ops)) IN
         IF q2.a.ok = "skip" THEN JRun(st, q, Tail(ops), acc)
         ELSE JRun(q2.t, q, Tail(ops), Append(acc, <<Head(ops), q2.a.ok, ResOf(q2.a), Obs(q2.t), q2.drop>>))
JProg(ops) == JRun(Empty(3), <<"t", <<>>>>, ops, <<>>)
Worth(p) == p # <<>> /\ \E i \in 1..Len(p) : p[i][1][1] \in {"jread", "jround"}

S(x) == <<"s", x>>
Leaves == <<Nil, <<"i", -3>>, <<"l", 7>>, <<"f", 6>>, <<"d", -5>>, <<"d", 8>>, S(<<>>), S(<<34>>), S(<<92, 34>>), S(<<97, -1, 0, 10>>),
            <<"v", <<>>>>, <<"m", <<>>>>, <<"a", "i", <<>>>>, <<"a", "i", <<1, 2>>>>, <<"a", "l", <<5>>>>, <<"a", "d", <<1, 4>>>>, <<"a", "f", <<1, 2, 3>>>>,
            <<"a", "d", <<8>>>>>>
N == Len(Leaves)
Vs(x, y) == {<<"v", <<x>>>>, <<"v", <<x, y>>>>, <<"m", <<<<S(<<97>>), x>>>>>>, <<"m", <<<<S(<<>>), x>>, <<S(<<34, 92>>), y>>>>>>,
             <<"v", <<<<"v", <<x>>>>, <<"m", <<<<S(<<98>>), y>>>>>>>>>>, <<"m", <<<<S(<<10>>), <<"v", <<x, y, x>>>>>>>>>>}
(* nested deeply: one level w times in a map, an array or both by turns *)
RECURSIVE Wrap(_, _, _)
Wrap(how, w, x) ==
    IF w = 0 THEN x
    ELSE IF how = "m" \/ (how = "b" /\ w % 2 = 0) THEN <<"m", <<<<S(<<97>>), Wrap(how, w - 1, x)>>, <<S(<<98>>), <<"i", 1>>>>>>>>
    ELSE <<"v", <<Nil, Wrap(how, w - 1, x), S(<<99>>)>>>>
Pairs(x, y) == {<<"v", <<x, y>>>>, <<"m", <<<<S(<<97>>), x>>, <<S(<<98>>), y>>>>>>}
Deeper == {Wrap(how, w, z) : how \in {"m", "a", "b"}, w \in 1..6, z \in UNION {Pairs(Leaves[i], y) : i \in 1..N, y \in {Nil, <<"i", 1>>, <<"m", <<>>>>}}}
Values == Deeper \cup {Leaves[i] : i \in 1..N} \cup UNION {Vs(Leaves[i], Leaves[j]) : i \in 1..N, j \in 1..N}
ValueOps(l) == <<<<"set", 1, <<>>, <<"L", l>>>>, <<"jround", 1, 2>>, <<"jwrite", 1, <<>>>>, <<"jwrite", 1, <<32>>>>, <<"jwrite", 2, <<10, 9>>>>,
                 <<"jread", 3>>, <<"jread", 2>>, <<"jread", 3>>, <<"jread", 3>>>>

Init == toks = <<>> /\ done = FALSE /\ case \in (IF What = "values" THEN Values ELSE {Nil})
Emit(p) == IF Worth(p) THEN PrintT("T" \o ToJson(p)) ELSE TRUE
Next == IF What = "values"
        THEN ~done /\ done' = TRUE /\ UNCHANGED <<toks, case>> /\ Emit(JProg(ValueOps(case)))
        ELSE /\ Len(toks) < MaxN
             /\ \E k \in 1..Len(Tokens) : toks' = Append(toks, k)
             /\ UNCHANGED <<case, done>>
             /\ Emit(JProg(<<<<"jtext", TextOf(toks')>>, <<"jread", 1>>, <<"jrest">>>>))
(* A value survives in the model too *)
Survives == What = "values" =>
    LET b == Build(Empty(1), case)
        l == Norm(b.s.h, b.x)
        r == PVal(Fmt(l, "none"))
    IN  r.k = "ok" /\ r.l = l /\ r.p = <<>>
=============================================================================
