---------------------------- MODULE TransformGen -----------------------------
EXTENDS Transform, LinearGen

FVal(t) == IF IsCx(t) THEN <<R(-40..40), R(-40..40)>> ELSE R(-40..40)
FN(st) == Pick(<<1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 9, 12, 13, 16, R(10..MaxLen)>>)
(* a signal of n values: full when short, else with few values *)
Signal(t, n) == LET few == [i \in 1..3 |-> R(1..n)] IN
                [i \in 1..n |-> IF n <= 16 \/ \E k \in 1..3 : few[k] = i THEN FVal(t) ELSE Zero(t)]
(* the first half of the spectrum of a real signal *)
Half(t, n) == LET m == n \div 2 + 1
                  q == Signal(t, m)
              IN  [i \in 1..m |-> IF i = 1 \/ (i = m /\ n % 2 = 0) THEN <<q[i][1], 0>> ELSE q[i]]
FRow(d, t, n) == IF d = "b" /\ ~IsCx(t) THEN Half(CxOf(t), n) ELSE Signal(t, n)
FFlat(d, t, n, m) == Joined([i \in 1..m |-> FRow(d, t, n)])
FIn(st, d, t, n) ==
    LET k == InSize(d, t, n)
        m == IF n > 16 THEN 1 ELSE R(1..3)
        o == R({0, 0, 1, 2})
        kind == R(1..5)
        u == InType(d, t)
    IN  IF kind <= 2 THEN <<"a", u, FRow(d, t, n)>>
        ELSE <<"w", <<"a", u, [i \in 1..o |-> FVal(u)] \o FFlat(d, t, n, m) \o [i \in 1..R(0..2) |-> FVal(u)]>>,
               IF m = 1 /\ kind = 3 THEN <<k>> ELSE IF m = 2 /\ kind = 3 THEN <<2, 1, k>> ELSE <<m, k>>, o>>
FOut(st, d, t, n, x) ==      \* a place for the result of x
    LET u == OutType(d, t)
        g == DimsOf(st.h, x)
        e == Front1(g) \o <<OutSize(d, t, n)>>
        o == R({0, 0, 1})
    IN  IF Len(g) = 1 /\ Chance(2) THEN <<"a", u, [i \in 1..Prod(e) |-> FVal(u)]>>
        ELSE <<"w", <<"a", u, [i \in 1..Prod(e) + o |-> FVal(u)]>>, e, o>>
FT(st) == Pick(<<"f", "d", "y", "z">>)
(* what can a variable hold be the input of? *)
Fits1(st, x) ==
    IF ~IsRef(x) \/ IsMap(st.h, x) \/ Size(st.h, x) = 0 THEN <<"f", "d", 4>>
    ELSE LET a == AType(st.h, x[2])
             n == Low(ShapeOf(st.h, x))
         IN  IF a \in {"f", "d"} THEN <<"f", a, n>>
             ELSE IF a \in {"y", "z"} THEN
                  LET k == R(1..3) IN
                  IF k = 1 THEN <<"f", a, n>> ELSE IF k = 2 THEN <<"b", a, n>>
                  ELSE <<"b", RealType(a), IF n = 1 THEN 1 ELSE 2 * (n - 1) + R(0..1)>>
             ELSE <<"f", FT(st), n>>
Wrong(f) == LET k == R(1..5) IN
            IF k = 1 THEN <<f[1], f[2], f[3] + R({-1, 1, 2})>> ELSE IF k = 2 THEN <<f[1], Pick(<<"f", "d", "y", "z", "i", "c">>), f[3]>>
            ELSE IF k = 3 THEN <<IF f[1] = "f" THEN "b" ELSE "f", f[2], f[3]>> ELSE IF k = 4 THEN <<f[1], f[2], R({0, -1})>> ELSE f
(* coefficients that have whole roots *)
RECURSIVE Coefs(_, _)
Coefs(p, n) ==
    IF n <= 0 THEN p
    ELSE LET r == R(-4..4)
             a == R(-3..3)
             b == R(1..3)
             q == IF n >= 2 /\ Chance(2) THEN <<1, -2 * a, a * a + b * b>> ELSE <<1, -r>>
             m == Len(p) + Len(q) - 1
             c(k) == LET s1(j) == IF j \in 1..Len(p) /\ k - j + 1 \in 1..Len(q) THEN p[j] * q[k - j + 1] ELSE 0 IN
                     s1(k) + s1(k - 1) + s1(k - 2)
         IN  Coefs([k \in 1..m |-> c(k)], n - (Len(q) - 1))
FRoots(st) ==
    LET t == Pick(<<"f", "d", "d">>)
        n == Pick(<<1, 1, 2, 2, 3, 3, 4, 5>>)
        m == R(1..3)
        row(i) == LET c == Coefs(<<R({1, 1, 1, 2, -1, -3})>>, n) IN [j \in 1..Len(c) |-> 4 * c[j]]
        o == R({0, 0, 1})
    IN  IF Chance(2) THEN <<"a", t, row(1)>>
        ELSE LET rs == [i \in 1..m |-> row(i)] IN
             <<"w", <<"a", t, [i \in 1..o |-> 4] \o Joined(rs)>>, <<m, n + 1>>, o>>
FPoly(st) ==
    LET t == FT(st)
        n == Pick(<<1, 2, 2, 3, 3, 4, 5>>)
        m == R(1..3)
        v(i) == IF IsCx(t) THEN <<4 * R(-3..3), 4 * R(-3..3)>> ELSE IF n <= 2 /\ Chance(3) THEN R(-16..16) ELSE 4 * R(-5..5)
        o == R({0, 0, 1})
    IN  IF Chance(2) THEN <<"a", t, [i \in 1..n |-> v(i)]>>
        ELSE <<"w", <<"a", t, [i \in 1..m * n + o |-> v(i)]>>, <<m, n>>, o>>
TSrc(st, l) == IF Chance(8) THEN LSrc(st) ELSE <<"L", l>>
FOp(st, c) ==
    LET x == R(Vars)
        y == R(Vars)
        X == st.v[x]
        z == R(Vars)
    IN  CASE c = "fin" -> <<"set", x, <<>>, <<"L", FIn(st, R({"f", "b"}), FT(st), FN(st))>>>>
          [] c = "froots" -> <<"set", x, <<>>, <<"L", FRoots(st)>>>>
          [] c = "fpoly" -> <<"set", x, <<>>, <<"L", FPoly(st)>>>>
          [] c = "dftv" -> LET f0 == Fits1(st, X)
                               f == IF Chance(8) THEN Wrong(f0) ELSE f0
                           IN  <<"dft", f[1], f[2], f[3], <<"P", x, <<>>>>, z>>
          [] c = "dftl" -> LET d == R({"f", "b"})
                               t == FT(st)
                               n == FN(st)
                           IN  <<"dft", d, t, n, TSrc(st, FIn(st, d, t, n)), z>>
          [] c = "dftb" -> IF Chance(2) THEN LET f == Fits1(st, X) IN <<"dftb", f[2], f[3], <<"P", x, <<>>>>, z>>
                           ELSE LET t == FT(st)
                                    n == FN(st)
                                IN  <<"dftb", t, n, <<"L", FIn(st, "f", t, n)>>, z>>
          [] c = "fout" -> LET f == Fits1(st, X) IN
                           IF f[2] \notin FloatTypes THEN <<"set", x, <<>>, <<"L", FIn(st, "f", "d", 3)>>>>
                           ELSE <<"set", z, <<>>, <<"L", FOut(st, f[1], f[2], f[3], X)>>>>
          [] c = "dfto" -> LET f0 == Fits1(st, X)
                               f == IF Chance(9) THEN Wrong(f0) ELSE f0
                               ys == {v \in Vars : IsRef(st.v[v]) /\ AType(st.h, st.v[v][2]) = OutType(f[1], f[2]) /\ v # x /\ Low(ShapeOf(st.h, st.v[v])) = OutSize(f[1], f[2], f[3])}
                           IN  <<"dfto", f[1], f[2], f[3], x, IF ys # {} /\ ~Chance(8) THEN R(ys) ELSE y>>
          [] c = "poly" -> <<"poly", IF Chance(2) THEN TSrc(st, FPoly(st)) ELSE <<"P", x, <<>>>>, z>>
          [] c = "roots" -> <<"roots", IF Chance(2) THEN TSrc(st, FRoots(st)) ELSE <<"P", x, <<>>>>, z>>
          [] OTHER -> LOp(st, c)
FCats == <<"fin", "fin", "fin", "froots", "fpoly", "dftv", "dftv", "dftv", "dftv", "dftl", "dftl", "dftl", "dftb", "dftb", "fout", "fout", "dfto", "dfto", "dfto",
           "poly", "poly", "poly", "roots", "roots", "roots", "subw", "share", "copy", "offs", "red", "lany", "alit", "nil", "vset">>
FStep(st, op) ==
    IF op[1] \in FOps
    THEN LET a == FApply(st, op) IN
         IF a.ok = "skip" THEN [a |-> a, t |-> st, drop |-> FALSE]
         ELSE IF ~Acyclic(a.s.h) THEN [a |-> Skip(st), t |-> st, drop |-> FALSE]
         ELSE [a |-> a, t |-> Canon(a.s), drop |-> FALSE]
    ELSE LStep(st, op)
FNext ==
    /\ Len(hist) < Depth
    /\ \E op \in {FOp(s, Pick(FCats))} :
       \E q \in {FStep(s, op)} :
         IF ~Keep(q) \/ ~InBounds(q.t)
         THEN UNCHANGED <<s, hist, last>>
         ELSE /\ s' = q.t
              /\ hist' = Append(hist, <<op, q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>)
              /\ last' = op
              /\ IF Len(hist) + 1 = Depth THEN PrintT("T" \o ToJson(hist')) ELSE TRUE

(***************************************************************************)
(* Every size up to MaxLen, every type, both directions: each unit vector  *)
(* (when short) or some, and a full one                                    *)
(***************************************************************************)
Unit(t, n, k) == [i \in 1..n |-> IF i = k THEN (IF IsCx(t) THEN <<4, -8>> ELSE 4) ELSE Zero(t)]
FInit == last \in ({"f", "b"} \X {"f", "d", "y", "z"} \X (1..MaxLen)) /\ s = Empty(NV) /\ hist = <<>>
FAllOps(d, t, n) ==
    LET m == InSize(d, t, n)
        u == InType(d, t)
        ks == IF m <= 8 THEN 1..m ELSE {1, 2, m - 1, m} \cup {3 + ((7 * n) % (m - 4))}
        ends(q) == [i \in 1..m |-> IF d = "b" /\ ~IsCx(t) /\ (i = 1 \/ (i = m /\ n % 2 = 0)) THEN <<q[i][1], 0>> ELSE q[i]]
        order == InOrder(ks)
        unit == [i \in 1..Len(order) |-> <<"dft", d, t, n, <<"L", <<"a", u, ends(Unit(u, m, order[i]))>>>>, 1>>]
        full == ends([i \in 1..m |-> IF n > 40 /\ i % 5 # 2 THEN Zero(u) ELSE IF IsCx(u) THEN <<((7 * i) % 13) - 6, ((5 * i) % 11) - 3>> ELSE ((7 * i) % 13) - 6])
        stack == <<"w", <<"a", u, <<full[1]>> \o full \o ends(Unit(u, m, 1))>>, <<2, m>>, 1>>
    IN  unit \o <<<<"dft", d, t, n, <<"L", <<"a", u, full>>>>, 2>>, <<"dft", d, t, n, <<"L", stack>>, 3>>>>
             \o (IF d = "f" THEN <<<<"dftb", t, n, <<"L", <<"a", u, full>>>>, 1>>, <<"dftb", t, n, <<"L", stack>>, 2>>>> ELSE <<>>)
             \o <<<<"dft", d, t, n + 2, <<"L", <<"a", u, full>>>>, 1>>, <<"set", 1, <<>>, <<"L", <<"a", u, full>>>>>>,
                  <<"set", 2, <<>>, <<"L", <<"a", OutType(d, t), [i \in 1..OutSize(d, t, n) |-> Zero(OutType(d, t))]>>>>>>,
                  <<"dfto", d, t, n, 1, 2>>, <<"dfto", d, t, n, 1, 1>>>>
RECURSIVE FRun(_, _, _)
FRun(st, os, acc) ==
    IF os = <<>> THEN acc
    ELSE LET q == FStep(st, Head(os)) IN
         IF q.a.ok = "skip" THEN FRun(st, Tail(os), acc)
         ELSE FRun(q.t, Tail(os), Append(acc, <<Head(os), q.a.ok, ResOf(q.a), Obs(q.t), q.drop>>))
FAll == /\ last # <<>>
        /\ hist' = FRun(Empty(NV), FAllOps(last[1], last[2], last[3]), <<>>)
        /\ last' = <<>> /\ s' = s
        /\ PrintT("T" \o ToJson(hist'))

(***************************************************************************)
(* In the model: transforming back gives N times the same (where powers of *)
(* w are independent up to w^(N/2) = -1, that is N a power of 2, or up to  *)
(* their sum being 0, N prime), and the roots of a polynomial give it back *)
(***************************************************************************)
Less(x, y) == <<x[1] - y[1], x[2] - y[2]>>
RECURSIVE SumOver(_, _, _, _)
SumOver(f, j, n, a) == IF j > n THEN a ELSE SumOver(f, j + 1, n, Plus(a, f[j]))
Poly1(q, k) == SumOver([i \in 1..Len(q) |-> IF q[i][1] = k THEN <<q[i][2], q[i][3]>> ELSE <<0, 0>>], 1, Len(q), <<0, 0>>)
(* the coefficient of w^m of sum over k of X[k] w^(-jk) *)
BackAt(n, sp, j, m) == SumOver([k \in 1..n |-> Poly1(sp[k][5], Mod(m + j * (k - 1), n))], 1, n, <<0, 0>>)
Reduced(n, c) == IF n = 1 THEN c ELSE IF n \in {2, 4, 8, 16} THEN [m \in 1..n \div 2 |-> Less(c[m], c[m + n \div 2])]
                 ELSE [m \in 1..n - 1 |-> Less(c[m], c[n])]
Transformed == last # <<>> /\ last[1] = "f" /\ last[3] \in {1, 2, 3, 4, 5, 7, 8, 11, 13, 16} =>
    LET n == last[3]
        x == [i \in 1..n |-> <<((7 * i) % 13) - 6, ((5 * i) % 11) - 3>>]
        sp == Trans("f", "z", n, x)
    IN  \A j \in 0..n - 1 :
           Reduced(n, [m \in 1..n |-> BackAt(n, sp, j, m - 1)]) = Reduced(n, [m \in 1..n |-> IF m = 1 THEN Times(n, x[j + 1]) ELSE <<0, 0>>])
RootsBack == \A v \in Vars :
    LET x == s.v[v] IN
    (IsRef(x) /\ ~IsMap(s.h, x) /\ AType(s.h, x[2]) \in {"f", "d"} /\ Size(s.h, x) \in 2..7 /\ Len(ShapeOf(s.h, x)) = 1) =>
    LET t == AType(s.h, x[2])
        e == RowOf(s.h, x, 1, Size(s.h, x))
        r == RootsOf(t, e)
    IN  r # <<"any">> => LET c == CxOf(t)
                     p == Expand(c, r[3], <<One(c)>>)
                     q == [i \in 1..Len(e) |-> Op1(c, "mul", <<e[1], 0>>, p.x[i])]
                 IN  p.ok = "ok" => \A i \in 1..Len(e) : q[i].ok = "ok" => q[i].x = <<e[i], 0>>
=============================================================================
