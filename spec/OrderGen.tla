------------------------------ MODULE OrderGen ------------------------------
(***************************************************************************)
(* Equality and order on a finite universe of values: every pair compared  *)
(* in the model and in the library, every triple in the model.             *)
(***************************************************************************)
EXTENDS Store, Json
CONSTANT Size2         \* how far to go: 1 or 2
VARIABLE at_

S(q) == <<"s", q>>
Base == <<Nil, <<"c", 97>>, <<"c", -60>>, <<"i", -1>>, <<"i", 97>>, <<"l", 97>>, <<"f", 4>>, <<"d", -6>>, <<"d", 4>>,
          <<"l", 500000001>>, <<"l", 500000002>>, <<"l", -500000002>>, <<"d", 2000000004>>, <<"d", 2000000006>>,
          <<"y", <<4, 6>>>>, <<"z", <<4, 6>>>>, <<"y", <<-8, 2>>>>, <<"y", <<6, -4>>>>, <<"y", <<0, -12>>>>, <<"z", <<-8, 2>>>>, <<"z", <<0, -12>>>>, <<"z", <<5, 0>>>>, S(<<>>), S(<<97>>), S(<<-60>>)>>
Small == <<Nil, <<"c", 97>>, <<"i", 1>>, <<"d", 4>>, S(<<97>>), S(<<>>)>>
More == <<S(<<97, 97>>), S(<<97, -60>>), S(<<97, 0, 97>>), S(<<98>>), S(<<0>>),
          <<"a", "i", <<>>>>, <<"a", "i", <<1>>>>, <<"a", "i", <<1, 2>>>>, <<"a", "i", <<2>>>>, <<"a", "i", <<-1>>>>, <<"a", "l", <<1, 2>>>>,
          <<"a", "f", <<4, 8>>>>, <<"a", "d", <<4, 8>>>>, <<"a", "d", <<4>>>>, <<"a", "d", <<>>>>,
          <<"a", "y", <<<<4, 1>>>>>>, <<"a", "z", <<<<4, 1>>, <<0, 8>>>>>>,
          <<"w", <<"a", "i", <<3, 1, 2, 4>>>>, <<2>>, 1>>, <<"w", <<"a", "i", <<3, 1, 2, 4>>>>, <<1, 2>>, 1>>,
          <<"w", <<"a", "i", <<3, 1, 2, 4>>>>, <<1>>, 1>>, <<"w", <<"a", "c", <<98, 97, -60>>>>, <<2>>, 1>>,
          <<"w", <<"a", "d", <<0, 4, 8, 12>>>>, <<2>>, 1>>,
          <<"v", <<>>>>, <<"m", <<>>>>,
          <<"m", <<<<S(<<97>>), <<"i", 1>>>>>>>>, <<"m", <<<<S(<<98>>), <<"i", 1>>>>>>>>, <<"m", <<<<S(<<97>>), <<"i", 2>>>>>>>>,
          <<"m", <<<<S(<<97>>), <<"i", 1>>>>, <<S(<<98>>), <<"i", 0>>>>>>>>, <<"m", <<<<<<"i", 1>>, S(<<97>>)>>>>>>,
          <<"m", <<<<S(<<97>>), Nil>>>>>>,
          <<"v", <<<<"v", <<<<"i", 1>>>>>>, Nil>>>>, <<"v", <<<<"m", <<<<S(<<97>>), <<"i", 1>>>>>>>>>>>>,
          <<"v", <<<<"a", "i", <<1>>>>>>>>, <<"v", <<<<"z", <<4, 6>>>>>>>>, <<"v", <<S(<<97>>), S(<<97>>)>>>> >>
N == Len(Small)
Ones == [k \in 1..N |-> <<"v", <<Small[k]>>>>]
Twos == [k \in 1..N * N |-> <<"v", <<Small[(k - 1) \div N + 1], Small[((k - 1) % N) + 1]>>>>]
Chars == [k \in 1..3 |-> <<"v", <<<<"c", <<98, -60, -112>>[k]>>>>>>]
Deeps == [k \in 1..N * N |-> <<"v", <<<<"v", <<Small[(k - 1) \div N + 1]>>>>, Small[((k - 1) % N) + 1]>>>>]
Univ == Base \o More \o Ones \o Twos \o Chars \o (IF Size2 > 1 THEN Deeps ELSE <<>>)

B == BuildSeq([v |-> <<>>, h |-> <<>>], Univ, <<>>)
H == B.s.h
X(k) == B.x[k]
E(a, b) == Eq(H, X(a), X(b))
L(a, b) == Lt(H, X(a), X(b))
Real(k) == ~Unordered(H, X(k))
All == 1..Len(Univ)
Reals == {k \in All : Real(k)}
(* the whole relations, computed once *)
LtM == [a \in Reals |-> {b \in Reals : L(a, b)}]
EqM == [a \in All |-> {b \in All : E(a, b)}]

(* Equality is an equivalence; order is total, strict, transitive and
   consistent with equality *)
Equivalence == at_ \in All =>
    /\ at_ \in EqM[at_]
    /\ \A b \in EqM[at_] : at_ \in EqM[b] /\ EqM[b] = EqM[at_]
TotalOrder == at_ \in Reals =>
    /\ at_ \notin LtM[at_]
    /\ \A b \in Reals : Cardinality({1} \cap (IF b \in EqM[at_] THEN {1} ELSE {})) +
                        (IF b \in LtM[at_] THEN 1 ELSE 0) + (IF at_ \in LtM[b] THEN 1 ELSE 0) = 1
    /\ \A b \in LtM[at_] : LtM[b] \subseteq LtM[at_]
    /\ \A b \in EqM[at_] : b \in Reals => LtM[b] = LtM[at_]
NilFirst == at_ \in Reals => (IsNil(X(at_)) \/ 1 \notin LtM[at_])

Init == at_ = 0
Compared(a, b) ==
    IF Real(a) /\ Real(b) THEN <<"q", BoolN(E(a, b)), BoolN(L(a, b)), BoolN(L(b, a))>>
    ELSE IF ByMagnitude(H, X(a), X(b))
    THEN <<"q", BoolN(E(a, b)), BoolN(Mag(H, X(a)) < Mag(H, X(b))), BoolN(Mag(H, X(b)) < Mag(H, X(a)))>>
    ELSE <<"q", BoolN(E(a, b))>>
Prog(a) ==
    <<<<<<"set", 1, <<>>, <<"L", Univ[a]>>>>, "ok", <<>>>>>> \o
    [k \in 1..2 * Len(Univ) |->
        LET b == (k + 1) \div 2 IN
        IF k % 2 = 1 THEN <<<<"set", 2, <<>>, <<"L", Univ[b]>>>>, "ok", <<>>>>
        ELSE <<<<"cmp", 1, 2>>, "ok",
               Compared(a, b)>>]
(* a whole array of values, its elements compared in place *)
ProgIn(a) ==
    <<<<<<"set", 1, <<>>, <<"L", <<"v", <<Nil>> \o Univ>>>>>>, "ok", <<>>>>>> \o
    [b \in All |->
        <<<<"cmpe", 1, <<<<"i", a>>>>, 1, <<<<"i", b>>>>>>, "ok",
               Compared(a, b)>>]
Next == /\ at_ < Len(Univ)
        /\ at_' = at_ + 1
        /\ PrintT("T" \o ToJson(Prog(at_')))
        /\ PrintT("T" \o ToJson(ProgIn(at_')))
=============================================================================
