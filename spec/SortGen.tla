------------------------------- MODULE SortGen -------------------------------
(***************************************************************************)
(* Sorting and searching: every array of a few values up to a length, of   *)
(* every type, and every window of rows of an array.                       *)
(***************************************************************************)
EXTENDS StoreStep
CONSTANT MaxN
VARIABLES case, done

Set1(l) == <<"set", 1, <<>>, <<"L", l>>>>
Vals(t) == CASE t = "c" -> {97, 98, -60} [] t \in {"f", "d"} -> {-6, 1, 8} [] OTHER -> {-2, 1, 3}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Cases ==
    {<<"dense", t, e>> : t \in {"c"}, e \in Seqs(Vals("c"), MaxN)}
    \cup {<<"dense", t, e>> : t \in {"i", "l"}, e \in Seqs(Vals("i"), MaxN)}
    \cup {<<"dense", t, e>> : t \in {"f", "d"}, e \in Seqs(Vals("f"), MaxN)}
    \cup {<<"mixed", "v", e>> : e \in Seqs(1..6, 3)}
    \cup {<<"cx", t, e>> : t \in {"y", "z"}, e \in Seqs({<<4, 0>>, <<0, 4>>, <<4, 4>>}, 3)}
    \cup {<<"rows", t, o, d>> : t \in {"c", "i", "l", "f", "d"}, o \in 0..3, d \in (1..4 \cup {8}) \X (1..4 \cup {8})}
    \cup {<<"cube", t, o, d>> : t \in {"i", "f"}, o \in 0..2, d \in (1..3) \X (1..3) \X (1..3)}
Perm == <<3, -1, 2, 2, 0, 7, -5, 1, 1, 4, -2, 0>>
Find(q) == [k \in 1..Len(q) |-> <<"index", 1, <<>>, <<"L", q[k]>>>>]
VSeq(t) == CASE t = "c" -> <<97, 98, -60, 120>> [] t \in {"f", "d"} -> <<-6, 1, 8, 120>> [] OTHER -> <<-2, 1, 3, 120>>
MSeq == <<Nil, <<"i", 1>>, <<"d", 4>>, <<"s", <<97>>>>, <<"v", <<<<"i", 1>>>>>>, <<"m", <<<<<<"s", <<97>>>>, Nil>>>>>>,
          <<"l", 1>>, <<"a", "i", <<1>>>>, <<"s", <<>>>>>>
Ops(c) ==
    CASE c[1] = "dense" ->
           <<Set1(<<"a", c[2], c[3]>>), <<"set", 2, <<>>, <<"P", 1, <<>>>>>>, <<"sort", 1, <<>>>>>>
           \o Find([k \in 1..4 |-> <<c[2], VSeq(c[2])[k]>>] \o <<<<"l", 1>>, Nil>>)
           \o <<<<"fsort", 1>>>>
           \o Find([k \in 1..3 |-> <<c[2], VSeq(c[2])[k]>>])
      [] c[1] = "mixed" ->
           <<Set1(<<"v", [k \in 1..Len(c[3]) |-> MSeq[c[3][k]]]>>), <<"sort", 1, <<>>>>>>
           \o Find(MSeq) \o <<<<"fsort", 1>>>>
      [] c[1] = "cx" ->
           <<Set1(<<"a", c[2], c[3]>>)>> \o Find(<<<<c[2], <<4, 0>>>>, <<c[2], <<4, 4>>>>, <<"i", 1>>>>) \o <<<<"fsort", 1>>>>
      [] c[1] \in {"rows", "cube"} ->
           <<Set1(<<"a", c[2], Perm>>), <<"view", 1, <<>>, 2, c[4], c[3]>>, <<"set", 3, <<>>, <<"P", 2, <<>>>>>>, <<"sort", 2, <<>>>>,
             <<"fsort", 2>>, <<"index", 2, <<>>, <<"L", <<c[2], 2>>>>>>, <<"index", 3, <<>>, <<"L", <<c[2], 0>>>>>>>>
Init == case \in Cases /\ done = 0
Next == done = 0 /\ done' = 1 /\ UNCHANGED case /\ PrintT("T" \o ToJson(Run(3, Ops(case))))
(* sorting in the model is a permutation and ordered *)
Ordered == case[1] = "dense" =>
    LET b == Build(Empty(1), <<"a", case[2], case[3]>>)
        q == Sorted(b.s.h, Items(b.s.h, b.x))
    IN  /\ \A k \in 1..Len(q) - 1 : ~Lt(b.s.h, q[k+1], q[k])
        /\ \A x \in Vals(case[2]) : Cardinality({k \in 1..Len(q) : q[k] = <<case[2], x>>}) =
                                    Cardinality({k \in 1..Len(q) : case[3][k] = x})
=============================================================================
