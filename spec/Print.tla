-------------------------------- MODULE Print --------------------------------
(***************************************************************************)
(* Printing: the text of a value, of its type, of an error and of a file   *)
(* of settings.  Texts are exact, white space included.                    *)
(***************************************************************************)
EXTENDS StoreStep, Text

(***************************************************************************)
(* Reals: six significant digits, rounded to the nearest, ties to an even  *)
(* digit; x is a number of quarters                                        *)
(***************************************************************************)
NearTo(n, m) ==      \* n / m, for n >= 0 and m even
    LET d == n \div m
        r == n % m
    IN  IF 2 * r < m \/ (2 * r = m /\ d % 2 = 0) THEN d ELSE d + 1
RECURSIVE Ten(_), NoZeros(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
NoZeros(t) == IF t # <<>> /\ t[Len(t)] = 48 THEN NoZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t
Frac(t) == LET u == NoZeros(t) IN IF u = <<>> THEN <<>> ELSE <<46>> \o u
Wide1(m, e) == \* m has six digits, m * 10^(e - 5)
    LET t == DigitsOf(m) IN <<t[1]>> \o Frac(Tail(t)) \o <<101, 43>> \o (IF e < 10 THEN <<48>> ELSE <<>>) \o DigitsOf(e)
Six(x) ==
    LET a == IF x < 0 THEN -x ELSE x
        w == a \div 4
        n == Len(DigitsOf(w))
        body == IF n <= 4 THEN DigitsOf(w) \o Frac(Tail(DigitsOf(100 + 25 * (a % 4))))
                ELSE IF n = 5 THEN LET m == NearTo(a * 10, 4) IN IF m = 1000000 THEN <<49, 48, 48, 48, 48, 48>> ELSE DigitsOf(m \div 10) \o Frac(DigitsOf(m % 10))
                ELSE IF n = 6 THEN LET m == NearTo(a, 4) IN IF m = 1000000 THEN B("1e+06") ELSE DigitsOf(m)
                ELSE LET m == NearTo(a, 4 * Ten(n - 6)) IN IF m = 1000000 THEN Wide1(100000, n) ELSE Wide1(m, n - 1)
    IN  (IF x < 0 THEN <<45>> ELSE <<>>) \o body
InSix(x) == x > -100000000 /\ x < 100000000

RECURSIVE Esc(_), Shown(_, _, _), CanShow(_, _)
Esc(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in {34, 92} THEN <<92, Head(q)>> ELSE <<Head(q)>>) \o Esc(Tail(q))
Blanks(n) == [i \in 1..n |-> 32]
NL == <<10>>
Comma(i, n) == IF i < n THEN <<44>> ELSE <<>>
One(t, x) == CASE t = "c" -> <<39, x, 39>>
               [] t \in {"i", "l"} -> IntText(x)
               [] t \in {"f", "d"} -> Six(x)
               [] OTHER -> <<40>> \o Six(x[1]) \o <<44>> \o Six(x[2]) \o <<41>>
(* at: how far in the line the value begins *)
Shown(h, x, at) ==
    IF IsNil(x) THEN B("null")
    ELSE IF ~IsRef(x) THEN One(x[1], x[2])
    ELSE LET n == Size(h, x)
             it(i) == Item(h, x[2], i - 1)
             lines(e) == <<91>> \o NL \o Concat([i \in 1..n |-> Blanks(at + 2) \o e[i] \o Comma(i, n) \o NL]) \o Blanks(at) \o <<93>>
         IN
    IF IsView(h, x)
    THEN LET d == ShapeOf(h, x)
             k == Len(d)
             e == [i \in 1..n |-> Shown(h, it(i), 0)]
             rows == d[k - 1]
             cols == d[k]
             row(m, j) == Blanks(at + 2) \o JoinSep([i \in 1..cols |-> e[(m - 1) * rows * cols + (j - 1) * cols + i]], <<44, 32>>) \o Comma(j, rows) \o NL
             mat(m) == <<91>> \o NL \o Concat([j \in 1..rows |-> row(m, j)]) \o Blanks(at) \o <<93>>
         IN  IF k < 2 THEN <<91>> \o JoinSep(e, <<44, 32>>) \o <<93>>
             ELSE (IF k > 2 THEN JoinSep([i \in 1..k |-> DigitsOf(d[i])], <<120>>) \o B(" tensor:") \o NL ELSE <<>>)
                  \o JoinSep([m \in 1..n \div (rows * cols) |-> mat(m)], NL)
    ELSE IF IsMap(h, x)
    THEN LET p(i) == Shown(h, h[x[2]].e[i][1], 0) \o <<58, 32>> \o Shown(h, it(i), at + 2) IN
         IF n = 0 THEN <<123, 125>>
         ELSE <<123>> \o Concat([i \in 1..n |-> NL \o Blanks(at + 2) \o p(i) \o Comma(i, n)]) \o NL \o Blanks(at) \o <<125>>
    ELSE LET t == AType(h, x[2]) IN
         CASE t = "c" -> <<34>> \o Esc(Codes(h, x)) \o <<34>>
           [] t = "v" -> lines([i \in 1..n |-> Shown(h, it(i), at + 2)])
           [] t = "z" -> IF n = 1 THEN Shown(h, it(1), 0) ELSE lines([i \in 1..n |-> Shown(h, it(i), 0)])
           [] OTHER -> <<91>> \o JoinSep([i \in 1..n |-> Shown(h, it(i), 0)], <<44, 32>>) \o <<93>>
(* Excluded: views without elements *)
CanShow(h, x) ==
    IF IsNil(x) THEN TRUE
    ELSE IF ~IsRef(x) THEN ~HasU(h, x) /\ ~IsWide(x[1], x[2])
                           /\ (x[1] \in {"f", "d"} => InSix(x[2])) /\ (IsCx(x[1]) => InSix(x[2][1]) /\ InSix(x[2][2]))
    ELSE /\ IsView(h, x) => Size(h, x) > 0 /\ h[BaseOf(h, x[2])].k # "m"
         /\ \A i \in 0..Size(h, x) - 1 : CanShow(h, Item(h, x[2], i))
         /\ IsMap(h, x) => \A i \in 1..Size(h, x) : CanShow(h, h[x[2]].e[i][1])
Has0(t) == \E i \in 1..Len(t) : t[i] = 0

TypeName(t) == CASE t = "c" -> B("char") [] t = "i" -> B("int") [] t = "l" -> B("long") [] t = "f" -> B("float") [] t = "d" -> B("double")
                 [] t = "y" -> B("cfloat") [] t = "z" -> B("cdouble") [] t = "v" -> B("var") [] t = "m" -> B("pair") [] OTHER -> B("array")
TypeText(h, x) == IF IsNil(x) \/ IsRef(x) THEN B("array") ELSE TypeName(x[1])
ATypeText(h, x) == IF IsNil(x) THEN B("array")
                   ELSE IF IsRef(x) THEN B("array[") \o TypeName(IF IsMap(h, x) THEN "m" ELSE AType(h, x[2])) \o <<93>> ELSE TypeName(x[1])

PApply(st, op) ==
    LET y == Operand(st, op[2])
        x == Get(y.s, y.r)
        is(r) == Out(y.s, r, "ok")
    IN
    IF y.ok # "ok" THEN y
    ELSE IF IsRef(x) /\ ~Acyclic(y.s.h) THEN Skip(st)
    ELSE CASE op[1] = "pr" -> IF ~CanShow(y.s.h, x) THEN Skip(st) ELSE is(<<"q", Shown(y.s.h, x, 0)>>)
           [] op[1] = "ty" -> is(<<"q", TypeText(y.s.h, x), ATypeText(y.s.h, x)>>)
           \* an error, copied in several ways; and what it leaves behind
           [] op[1] = "er" -> IF ~CanShow(y.s.h, x) THEN Skip(st)
                              ELSE LET t == Shown(y.s.h, x, 0) IN IF Has0(t) THEN Skip(st) ELSE is(<<"q", t, 0>>)
           \* a timer says how long it lived
           [] op[1] = "tm" -> IF ~CanShow(y.s.h, x) THEN Skip(st) ELSE is(<<"q", Shown(y.s.h, x, 0)>>)
           \* settings: one line each
           [] OTHER -> IF IsNil(x) THEN is(<<"q", <<>>>>)
                       ELSE IF ~IsRef(x) \/ IsView(y.s.h, x) \/ ~CanShow(y.s.h, x) THEN Skip(st)
                       ELSE is(<<"q", Concat([i \in 1..Size(y.s.h, x) |-> Shown(y.s.h, Item(y.s.h, x[2], i - 1), 0) \o NL])>>)
PrintOps == {"pr", "ty", "er", "tm", "iniw"}
=============================================================================
