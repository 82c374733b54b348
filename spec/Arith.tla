-------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* Arithmetic: x op y, x op= y, op(x, y, z) for add, sub, mul, div, pow    *)
(* and set (which takes the value of y) on single values, dense arrays and *)
(* views of them, dynamically typed arrays and maps.  What op= does is     *)
(* done element by element on the store; x op y is op= on a copy of x,     *)
(* however deep.                                                           *)
(***************************************************************************)
EXTENDS StoreStep

Abs(x) == IF x < 0 THEN -x ELSE x
Ok(x) == [ok |-> "ok", x |-> x]
No == [ok |-> "skip", x |-> 0]
(* results that the type holds exactly, and this specification too *)
Limit(t) == IF t \in {"f", "y"} THEN 16000000 ELSE IF IsInt(t) THEN 400000000 ELSE 1600000000
Fits(t, x) == IF Abs(x) <= Limit(t) /\ x # U THEN Ok(x) ELSE No
Wrap(x) == ((x + 128) % 256) - 128
(* division towards zero *)
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

(* one operation on two numbers of type t.  Excluded: division by zero,    *)
(* results that are not exactly multiples of a quarter, and large ones,    *)
(* but for wide numbers with what leaves them as they are                  *)
CanAdd(a, b) == Abs(a) <= 1000000000 /\ Abs(b) <= 1000000000
CanMul(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= 1600000000 \div Abs(b)
Wide1(f, a, b, one) ==
    CASE f = "add" -> IF b = 0 THEN Ok(a) ELSE IF a = 0 THEN Ok(b) ELSE IF a = -b THEN Ok(0) ELSE No
      [] f = "sub" -> IF b = 0 THEN Ok(a) ELSE IF a = 0 THEN Ok(-b) ELSE IF a = b THEN Ok(0) ELSE No
      [] f = "mul" -> IF b = one THEN Ok(a) ELSE IF a = one THEN Ok(b) ELSE IF b = -one THEN Ok(-a) ELSE IF a = -one THEN Ok(-b)
                      ELSE IF 0 \in {a, b} THEN Ok(0) ELSE No
      [] f = "div" -> IF b = 0 THEN No ELSE IF b = one THEN Ok(a) ELSE IF b = -one THEN Ok(-a) ELSE IF a = b THEN Ok(one) ELSE IF a = -b THEN Ok(-one)
                      ELSE IF a = 0 THEN Ok(0) ELSE No
      [] OTHER -> No
RealT(t, f, a, b) ==
    IF t = "d" /\ (IsWide(t, a) \/ IsWide(t, b)) THEN Wide1(f, a, b, 4)
    ELSE IF IsWide("d", a) \/ IsWide("d", b) THEN No
    ELSE
    CASE f = "add" -> IF CanAdd(a, b) THEN Fits(t, a + b) ELSE No
      [] f = "sub" -> IF CanAdd(a, b) THEN Fits(t, a - b) ELSE No
      [] f = "mul" -> IF ~CanMul(a, b) THEN No ELSE IF (a * b) % 4 # 0 THEN No ELSE Fits(t, (a * b) \div 4)
      [] f = "div" -> IF b = 0 \/ Abs(a) > 400000000 THEN No ELSE IF Abs(4 * a) % Abs(b) # 0 THEN No ELSE Fits(t, Quot(4 * a, b))
      [] f = "pow" -> IF b = 0 THEN Ok(4) ELSE IF b = 4 THEN Ok(a)
                      ELSE IF b = 8 /\ CanMul(a, a) /\ (a * a) % 4 = 0 THEN Fits(t, (a * a) \div 4) ELSE No
Real1(f, a, b) == RealT("f", f, a, b)
Int1(t, f, a, b) ==
    IF f # "pow" /\ (IsWide(t, a) \/ IsWide(t, b)) THEN Wide1(f, a, b, 1)
    ELSE LET r == CASE f = "add" -> Ok(a + b)
               [] f = "sub" -> Ok(a - b)
               [] f = "mul" -> IF ~CanMul(a, b) THEN No ELSE Ok(a * b)
               [] f = "div" -> IF b = 0 THEN No ELSE Ok(Quot(a, b))
               [] f = "pow" -> [ok |-> "throw", x |-> 0]
    IN  IF r.ok # "ok" THEN r ELSE IF t = "c" THEN Ok(Wrap(r.x)) ELSE Fits(t, r.x)
Cx(re, im) == IF re.ok = "ok" /\ im.ok = "ok" THEN Ok(<<re.x, im.x>>) ELSE No
BothT(t, f, p, q) == IF p.ok = "ok" /\ q.ok = "ok" THEN RealT(t, f, p.x, q.x) ELSE No
Both(f, p, q) == BothT("f", f, p, q)
Cx1(t, f, a, b) ==
    LET r == IF t = "z" THEN "z" ELSE "f" IN
    CASE f \in {"add", "sub"} -> Cx(RealT(r, f, a[1], b[1]), RealT(r, f, a[2], b[2]))
      [] f = "mul" -> Cx(BothT(r, "sub", RealT(r, "mul", a[1], b[1]), RealT(r, "mul", a[2], b[2])),
                         BothT(r, "add", RealT(r, "mul", a[1], b[2]), RealT(r, "mul", a[2], b[1])))
      [] f = "div" -> IF b[2] = 0 /\ b[1] \in {4, 8, -4} THEN Cx(RealT(r, "div", a[1], b[1]), RealT(r, "div", a[2], b[1]))
                      ELSE IF b[1] = 0 /\ b[2] \in {4, 8} THEN Cx(RealT(r, "div", a[2], b[2]), RealT(r, "div", -a[1], b[2])) ELSE No
      [] f = "pow" -> No
HasU1(t, x) == IF IsCx(t) THEN U \in {x[1], x[2]} ELSE x = U
Op1(t, f, a, b) ==
    IF f = "set" THEN (IF HasU1(t, b) THEN No ELSE Ok(b))
    ELSE IF f = "rsub" THEN (IF HasU1(t, a) \/ HasU1(t, b) THEN No ELSE IF IsCx(t) THEN Cx1(t, "sub", b, a) ELSE IF IsInt(t) THEN Int1(t, "sub", b, a) ELSE RealT(t, "sub", b, a))
    ELSE IF HasU1(t, a) \/ HasU1(t, b) THEN No
    ELSE IF IsCx(t) THEN Cx1(t, f, a, b) ELSE IF IsInt(t) THEN Int1(t, f, a, b) ELSE RealT(t, f, a, b)

(* the value in slot sl becomes itself f y; states in between may show when *)
(* it ends in an error                                                     *)
Res(s, ok) == [s |-> s, ok |-> ok]
IsOne(h, y) == ~IsRef(y) \/ (Len(ShapeOf(h, y)) = 1 /\ Size(h, y) = 1)
Only(h, y) == IF IsRef(y) THEN Item(h, y[2], 0) ELSE y
SingleZ(h, x) == IsRef(x) /\ AType(h, x[2]) = "z" /\ Size(h, x) = 1
VecTypes(f) == CASE f \in {"add", "sub"} -> {"f", "d", "y", "z"} [] f = "mul" -> {"f", "d"}
                    [] f = "set" -> {"c", "i", "l", "f", "d", "y", "z"} [] f = "rsub" -> {"d"} [] OTHER -> {}
(* a number and anything that converts to its type *)
With(s, t, f, a, y) ==
    LET c == ToElem(s, t, y) IN
    IF f = "pow" /\ IsInt(t) THEN [ok |-> "throw", x |-> 0]
    ELSE IF c.ok # "ok" THEN c ELSE Op1(t, f, a, c.x)
Overlap(h, x, y) ==
    /\ IsRef(y) /\ BaseOf(h, x[2]) = BaseOf(h, y[2])
    /\ LET a == OffOf(h, x[2])
           b == OffOf(h, y[2])
       IN  a < b + Size(h, y) /\ b < a + Size(h, x)

RECURSIVE InCell(_, _, _, _), Each(_, _, _, _, _), Every(_, _, _, _, _)
(* dense elements from the i-th on, with one number *)
Each(s, f, id, i, y) ==
    IF i = Size(s.h, Ref(id)) THEN Res(s, "ok")
    ELSE LET sl == SlotOf(s.h, id, i)
             t == AType(s.h, id)
             r == With(s, t, f, Get(s, sl)[2], y)
         IN  IF r.ok # "ok" THEN Res(s, r.ok)
             ELSE Each([s EXCEPT !.h[sl[2]].e[sl[3] + 1] = r.x], f, id, i + 1, y)
(* elements that can be anything, with one value *)
Every(s, f, id, i, y) ==
    IF i = Size(s.h, Ref(id)) THEN Res(s, "ok")
    ELSE LET sl == SlotOf(s.h, id, i)
             x == Get(s, sl)
         IN  IF IsNil(x) THEN Res(s, "throw")
             ELSE IF IsRef(x)
             THEN LET r == InCell(s, f, x[2], y) IN
                  IF r.ok # "ok" THEN r ELSE Every(r.s, f, id, i + 1, y)
             ELSE LET r == With(s, x[1], f, x[2], y) IN
                  IF r.ok # "ok" THEN Res(s, r.ok)
                  ELSE Every(Put(s, sl, <<x[1], r.x>>), f, id, i + 1, y)
InCell(s, f, id, y) ==
    LET x == Ref(id)
        t == AType(s.h, id)
    IN  IF SingleZ(s.h, x) THEN Each(s, f, id, 0, y)
        ELSE IF f = "mul" /\ IsOne(s.h, y) /\ ~IsNil(y)
        THEN IF t \notin {"f", "d"} THEN Res(s, "throw")
             ELSE LET c == ToElem(s, t, Only(s.h, y)) IN
                  IF c.ok # "ok" THEN Res(s, c.ok) ELSE Each(s, f, id, 0, <<t, c.x>>)
        ELSE IF IsNil(y) THEN Res(s, "throw")
        ELSE IF IsOne(s.h, y)
        THEN IF t \in {"v", "p"} THEN Every(s, f, id, 0, Only(s.h, y)) ELSE Each(s, f, id, 0, Only(s.h, y))
        ELSE LET d1 == ShapeOf(s.h, x)
                 d2 == ShapeOf(s.h, y)
                 n == Size(s.h, y)
                 sub == SubSeq(d1, Len(d1) - Len(d2) + 1, Len(d1))
             IN  IF Len(d2) > Len(d1) THEN Res(s, "throw")
                 ELSE IF AType(s.h, y[2]) # t \/ sub # d2 THEN Res(s, "throw")
                 ELSE IF Size(s.h, x) = 0 THEN Res(s, "ok")
                 ELSE IF t \notin VecTypes(f) THEN Res(s, "throw")
                 \* Excluded: the right hand side overlaps the left without being it
                 ELSE IF Overlap(s.h, x, y) /\ ~(OffOf(s.h, id) = OffOf(s.h, y[2]) /\ n = Size(s.h, x)) THEN Res(s, "skip")
                 ELSE LET b == BaseOf(s.h, id)
                          o == OffOf(s.h, id)
                          m == Size(s.h, x)
                          v(i) == Op1(t, f, s.h[b].e[i], Item(s.h, y[2], (i - 1 - o) % n)[2])
                          in(i) == i > o /\ i <= o + m
                          q == [i \in 1..Len(s.h[b].e) |-> IF in(i) THEN v(i) ELSE Ok(s.h[b].e[i])]
                      IN  IF \E i \in 1..Len(q) : q[i].ok # "ok" THEN Res(s, "skip")
                          ELSE Res([s EXCEPT !.h[b].e = [i \in 1..Len(@) |-> q[i].x]], "ok")
InSlot(s, f, sl, y) ==
    LET x == Get(s, sl) IN
    IF IsNil(x) THEN Res(s, "throw")
    ELSE IF IsRef(x) THEN InCell(s, f, x[2], y)
    ELSE LET r == With(s, x[1], f, x[2], y) IN
         IF r.ok # "ok" THEN Res(s, r.ok)
         ELSE IF sl[1] = "d" THEN Res([s EXCEPT !.h[sl[2]].e[sl[3] + 1] = r.x], "ok")
         ELSE Res(Put(s, sl, <<x[1], r.x>>), "ok")

(* a copy of everything below x but the keys; what a view does not show has no value *)
RECURSIVE Tree(_, _), TreeSeq(_, _, _)
Tree(s, x) ==
    IF ~IsRef(x) THEN Boxed(s, x)
    ELSE LET b == BaseOf(s.h, x[2])
             c == s.h[b]
             o == OffOf(s.h, x[2])
             w == s.h[x[2]].k = "w"
             n == Size(s.h, x)
             any == c.k = "m" \/ c.t = "v"
             its == IF any THEN [i \in 1..n |-> Item(s.h, x[2], i - 1)] ELSE <<>>
             r == TreeSeq(s, its, <<>>)
             e == [i \in 1..Len(c.e) |->
                      IF i > o /\ i <= o + n
                      THEN IF c.k = "m" THEN <<c.e[i][1], r.x[i]>> ELSE IF any THEN r.x[i - o] ELSE c.e[i]
                      ELSE IF any THEN Nil ELSE UOf(c.t)]
             t == NewCell(r.s, [c EXCEPT !.e = e])
         IN  IF ~w THEN [s |-> t, x |-> Last(t)]
             ELSE LET t2 == NewCell(t, Win(Len(t.h), o, s.h[x[2]].d)) IN [s |-> t2, x |-> Last(t2)]
TreeSeq(s, xs, acc) ==
    IF xs = <<>> THEN [s |-> s, x |-> acc]
    ELSE LET r == Tree(s, Head(xs)) IN TreeSeq(r.s, Tail(xs), Append(acc, r.x))

Fresh(s, x) == [s EXCEPT !.v = Append(@, x)]
Unfresh(s, n) == [s EXCEPT !.v = SubSeq(@, 1, n)]
(* x f y as a new value: the compound form on a temporary *)
OutOf(s, f, x, y) ==
    IF IsNil(x) THEN [s |-> s, x |-> Nil, ok |-> "throw"]
    ELSE LET c == Tree(s, x)
             t == Fresh(c.s, c.x)
             n == Len(t.v)
             r == InSlot(t, f, <<"x", n>>, y)
         IN  [s |-> Unfresh(r.s, n - 1), x |-> r.s.v[n], ok |-> r.ok]

(* op(x, y, z): z has the type and shape of x and a storage of its own *)
Dense(h, x) == IsRef(x) /\ AType(h, x[2]) \notin {"v", "p"}
Fillable(h, x, y, z) ==
    IF IsRef(x)
    THEN /\ Dense(h, x) /\ Dense(h, z)
         /\ AType(h, x[2]) = AType(h, z[2])
         /\ ShapeOf(h, x) = ShapeOf(h, z)
         /\ \/ BaseOf(h, x[2]) # BaseOf(h, z[2])
            \/ x = z
         /\ IsRef(y) => BaseOf(h, y[2]) # BaseOf(h, z[2])
    ELSE ~IsRef(z) /\ TypeOf(x) = TypeOf(z) /\ ~IsNil(x)
(* the elements of z become those of x *)
CopyInto(s, x, z) ==
    LET b == BaseOf(s.h, z[2])
        o == OffOf(s.h, z[2])
        n == Size(s.h, z)
    IN  [s EXCEPT !.h[b].e = [i \in 1..Len(@) |-> IF i > o /\ i <= o + n THEN Item(s.h, x[2], i - 1 - o)[2] ELSE @[i]]]

AApply(s, op) ==
    LET o == op[1] IN
    CASE o = "bin" ->
           LET y == Operand(s, op[4]) IN
           IF y.ok # "ok" THEN y
           ELSE LET r == OutOf(y.s, op[2], y.s.v[op[3]], Get(y.s, y.r)) IN
                IF r.ok # "ok" THEN Out(y.s, Nil, r.ok) ELSE Into(Out(r.s, r.x, "ok"), op[5])
      [] o = "cpd" ->
           LET y == Operand(s, op[5]) IN
           IF y.ok # "ok" THEN y
           ELSE LET l == Loc(y.s, <<"x", op[3]>>, op[4]) IN
                IF l.ok # "ok" THEN l
                ELSE IF l.r[1] = "t" THEN Skip(s)
                ELSE LET r == InSlot(l.s, op[2], l.r, Get(l.s, y.r)) IN Out(r.s, Nil, r.ok)
      [] o = "tri" ->
           LET x == s.v[op[3]]
               y == s.v[op[4]]
               z == s.v[op[5]]
           IN  IF ~Fillable(s.h, x, y, z) THEN Skip(s)
               ELSE IF ~IsRef(x)
               THEN LET r == InSlot(Fresh(s, x), op[2], <<"x", Len(s.v) + 1>>, y)
                        t == Unfresh(r.s, Len(s.v))
                    IN  IF r.ok = "ok" THEN Done([t EXCEPT !.v[op[5]] = r.s.v[Len(s.v) + 1]]) ELSE Out(s, Nil, r.ok)
               ELSE LET r == InCell(CopyInto(s, x, z), op[2], z[2], y)
                    IN  IF r.ok = "ok" THEN Done(r.s) ELSE IF InCell(s, op[2], x[2], y).ok = "throw" THEN Throw(s) ELSE Skip(s)
      [] o = "neg" ->
           LET r == OutOf(s, "mul", s.v[op[2]], <<"i", -1>>) IN
           IF r.ok # "ok" THEN Out(s, Nil, r.ok) ELSE Into(Out(r.s, r.x, "ok"), op[3])
AOps == {"bin", "cpd", "tri", "neg"}

=============================================================================
