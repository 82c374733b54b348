-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The core of libube: variables, element access, sequence operations,     *)
(* maps, views, copying and sharing.  Apply(s, op) is the effect of one    *)
(* public operation on state s:                                            *)
(*   [s |-> new state, r |-> result, ok |-> "ok" | "throw" | "skip"]       *)
(* "skip" means the operation is outside what the properties claim (see    *)
(* the comments marked Excluded) and is not generated.                     *)
(***************************************************************************)
EXTENDS Values

Out(s, r, ok) == [s |-> s, r |-> r, ok |-> ok]
Done(s) == Out(s, Nil, "ok")
Throw(s) == Out(s, Nil, "throw")
Skip(s) == Out(s, Nil, "skip")

NewCell(s, c) == [s EXCEPT !.h = Append(@, c)]
Last(s) == Ref(Len(s.h))
(* A complex double has no scalar form: it becomes an array of one *)
Boxed(s, x) == IF x[1] = "z"
               THEN LET t == NewCell(s, Arr("z", <<x[2]>>)) IN [s |-> t, x |-> Last(t)]
               ELSE [s |-> s, x |-> x]

(***************************************************************************)
(* Literals of the generated programs                                      *)
(***************************************************************************)
(* Pairs in the order of their keys; a later pair replaces one of equal key *)
RECURSIVE SortPairs(_, _)
SortPairs(h, ps) ==
    IF ps = <<>> THEN <<>>
    ELSE LET n == Len(ps)
             r == SortPairs(h, SubSeq(ps, 1, n - 1))
             p == ps[n]
             lo == SelectSeq(r, LAMBDA y : Lt(h, y[1], p[1]))
             hi == SelectSeq(r, LAMBDA y : Lt(h, p[1], y[1]))
         IN  lo \o <<p>> \o hi
RECURSIVE Build(_, _), BuildSeq(_, _, _)
Build(s, l) ==
    CASE l[1] = "s" -> LET t == NewCell(s, Arr("c", l[2])) IN [s |-> t, x |-> Last(t)]
      [] l[1] = "a" -> LET t == NewCell(s, Arr(l[2], l[3])) IN [s |-> t, x |-> Last(t)]
      [] l[1] = "v" -> LET b == BuildSeq(s, l[2], <<>>)
                           t == NewCell(b.s, Arr("v", b.x))
                       IN  [s |-> t, x |-> Last(t)]
      [] l[1] = "m" -> LET b == BuildSeq(s, [i \in 1..2 * Len(l[2]) |-> l[2][(i + 1) \div 2][2 - (i % 2)]], <<>>)
                           pr(i) == <<b.x[2 * i - 1], b.x[2 * i]>>
                           t == NewCell(b.s, Map(SortPairs(b.s.h, [i \in 1..Len(l[2]) |-> pr(i)])))
                       IN  [s |-> t, x |-> Last(t)]
      [] l[1] = "w" -> LET b == Build(s, l[2])          \* a view: base, shape, offset
                           t == NewCell(b.s, Win(b.x[2], l[4], l[3]))
                       IN  [s |-> t, x |-> Last(t)]
      [] l[1] = "z" -> Boxed(s, l)
      [] OTHER -> [s |-> s, x |-> l]
BuildSeq(s, ls, acc) ==
    IF ls = <<>> THEN [s |-> s, x |-> acc]
    ELSE LET b == Build(s, Head(ls)) IN BuildSeq(b.s, Tail(ls), Append(acc, b.x))

(***************************************************************************)
(* Slots: <<"x",i>> a variable, <<"e",h,i>> an element of a dynamically    *)
(* typed array or map value (i from 0), <<"d",h,i>> an element of a dense  *)
(* array.  h is never a view here: views resolve to their array.           *)
(***************************************************************************)
Get(s, sl) ==
    IF sl[1] = "x" THEN s.v[sl[2]]
    ELSE IF sl[1] = "t" THEN sl[2]
    ELSE Item(s.h, sl[2], sl[3])
(* Store a value in a slot that can hold any value *)
Put(s, sl, x) ==
    IF sl[1] = "x" THEN [s EXCEPT !.v[sl[2]] = x]
    ELSE IF s.h[sl[2]].k = "m" THEN [s EXCEPT !.h[sl[2]].e[sl[3]+1] = <<@[1], x>>]
    ELSE [s EXCEPT !.h[sl[2]].e[sl[3]+1] = x]

(* Conversion of a value to an element of a dense array of type t *)
ToElem(s, t, x) ==
    IF x[1] \notin {"h", "n"} THEN [ok |-> "ok", x |-> Conv(x[1], t, x[2])]
    ELSE IF IsStr(s.h, x)
         THEN IF HasU(s.h, x) THEN [ok |-> "skip", x |-> 0]
              ELSE StrConv(t, Codes(s.h, x))
    ELSE IF IsRef(x) /\ AType(s.h, x[2]) = "z" /\ Size(s.h, x) = 1
         THEN [ok |-> "ok", x |-> Conv("z", t, Item(s.h, x[2], 0)[2])]
    ELSE [ok |-> "throw", x |-> 0]

(* Can assigning y to a view variable write the elements through? *)
Copyable(h, w, y) ==
    /\ IsRef(y)
    /\ AType(h, w[2]) = AType(h, y[2])
    /\ ~IsMap(h, y)
    /\ LET dw == h[w[2]].d
           dy == IF IsView(h, y) THEN h[y[2]].d ELSE <<CSize(h[y[2]])>>
       IN  IF Len(dw) = 1 /\ Len(dy) = 1 THEN Prod(dw) = Prod(dy) ELSE dw = dy

(* Assignment: to a variable or element holding a view it writes through;  *)
(* to an element of a dense array it converts; otherwise the slot becomes  *)
(* a holder of the value.                                                  *)
Assign(s, sl, x) ==
    IF sl[1] = "d"
    THEN LET c == ToElem(s, s.h[sl[2]].t, x)
         IN  IF c.ok = "ok"
             THEN Done([s EXCEPT !.h[sl[2]].e[sl[3]+1] = c.x])
             ELSE Out(s, Nil, c.ok)
    ELSE LET old == Get(s, sl) IN
         IF IsView(s.h, old) /\ Copyable(s.h, old, x)
         THEN LET w == s.h[old[2]]
                  n == Prod(w.d)
                  ob == OffOf(s.h, x[2])
                  same == BaseOf(s.h, x[2]) = w.b
              IN  IF s.h[w.b].t = "v" THEN Skip(s)   \* Excluded: views of dynamically typed arrays
                  \* Excluded: source and destination windows that overlap
                  ELSE IF same /\ ob # w.o /\ ob < w.o + n /\ w.o < ob + n THEN Skip(s)
                  ELSE Done([s EXCEPT !.h[w.b].e =
                         [i \in 1..Len(@) |->
                            IF i > w.o /\ i <= w.o + n
                            THEN Item(s.h, x[2], i - 1 - w.o)[2] ELSE @[i]]])
         \* Excluded: one complex double into a view of one, a scalar or an array?
         ELSE IF x[1] = "z" /\ IsView(s.h, old) /\ AType(s.h, old[2]) = "z" /\ Size(s.h, old) = 1 THEN Skip(s)
         ELSE LET b == Boxed(s, x) IN Done(Put(b.s, sl, b.x))

(***************************************************************************)
(* Element access                                                          *)
(***************************************************************************)
Rep(n, x) == [i \in 1..n |-> x]
Grow(t, e, n) == e \o Rep(n - Len(e), IF t = "v" THEN Nil ELSE UOf(t))
SlotOf(h, id, i) ==
    LET b == BaseOf(h, id) IN
    <<IF h[b].k = "m" \/ h[b].t = "v" THEN "e" ELSE "d", b, OffOf(h, id) + i>>
KeyIdx(h, id, k) ==   \* where the key is, or should be inserted (from 0)
    Cardinality({i \in 1..Len(h[id].e) : Lt(h, h[id].e[i][1], k)})
HasKey(h, id, k) ==
    LET i == KeyIdx(h, id, k) IN i < Len(h[id].e) /\ Eq(h, h[id].e[i+1][1], k)

(* operator [] with an index: grows, and types what had no array *)
LocInt(s, sl, i) ==
    LET x == Get(s, sl) IN
    IF i < 0 THEN Throw(s)
    ELSE IF sl[1] = "d" THEN Throw(s)   \* an element of a dense array has no elements
    ELSE IF IsNil(x)
    THEN LET t == NewCell(s, Arr("v", Rep(i + 1, Nil)))
         IN  Out(Put(t, sl, Last(t)), SlotOf(t.h, Len(t.h), i), "ok")
    ELSE IF IsScalar(x)
    THEN LET t == NewCell(s, Arr(x[1], Grow(x[1], <<x[2]>>, i + 1)))
         IN  Out(Put(t, sl, Last(t)), SlotOf(t.h, Len(t.h), i), "ok")
    ELSE LET id == x[2]
             c == s.h[id]
         IN  IF i < CSize(c) THEN Out(s, SlotOf(s.h, id, i), "ok")
             ELSE IF c.k = "w" THEN Throw(s)
             ELSE IF c.k = "m" THEN Skip(s)   \* Excluded: growing a map by position
             ELSE LET t == [s EXCEPT !.h[id].e = Grow(c.t, @, i + 1)]
                  IN  Out(t, SlotOf(t.h, id, i), "ok")

(* operator [] with a key: creates the map and the entry *)
LocKey(s0, sl, l) ==
    LET b == Build(s0, l)
        s == b.s
        k == b.x
        x == Get(s0, sl)
    IN  IF sl[1] = "d" \/ IsScalar(x) \/ x[1] = "z" THEN Skip(s)
        ELSE IF IsRef(x) /\ s.h[x[2]].k # "m"
        THEN \* falls back to an index
             LET c == ToElem(s, "i", k)
             IN  IF c.x = U THEN Skip(s) ELSE IF c.ok = "ok" THEN LocInt(s, sl, c.x) ELSE Out(s, Nil, c.ok)
        ELSE LET t == IF IsNil(x) THEN Put(NewCell(s, Map(<<>>)), sl, Ref(Len(s.h) + 1)) ELSE s
                 id == IF IsNil(x) THEN Len(t.h) ELSE x[2]
                 i == KeyIdx(t.h, id, k)
             IN  IF IsNil(k) THEN Out(t, <<"t", Nil>>, "ok")
                 ELSE IF HasKey(t.h, id, k) THEN Out(t, <<"e", id, i>>, "ok")
                 ELSE LET e == t.h[id].e
                      IN  Out([t EXCEPT !.h[id].e =
                                 SubSeq(e, 1, i) \o <<<<k, Nil>>>> \o SubSeq(e, i + 1, Len(e))],
                              <<"e", id, i>>, "ok")

(* A path is a sequence of <<"i", index>> and <<"k", literal>> *)
RECURSIVE Loc(_, _, _)
Loc(s, sl, p) ==
    IF p = <<>> THEN Out(s, sl, "ok")
    ELSE IF sl[1] = "t" THEN Skip(s)
    ELSE LET r == IF Head(p)[1] = "i" THEN LocInt(s, sl, Head(p)[2])
                  ELSE LocKey(s, sl, Head(p)[2])
         IN  IF r.ok # "ok" THEN r ELSE Loc(r.s, r.r, Tail(p))

(* at(): never changes anything.  Excluded: an index outside the array *)
RECURSIVE At(_, _, _)
At(s, sl, p) ==
    IF p = <<>> THEN Out(s, sl, "ok")
    ELSE LET x == Get(s, sl)
             k == Head(p)
         IN  IF IsNil(x) THEN Throw(s)
             ELSE IF k[1] = "i"
             THEN IF IsRef(x)
                  THEN IF k[2] \in 0..Size(s.h, x) - 1
                       THEN At(s, SlotOf(s.h, x[2], k[2]), Tail(p)) ELSE Skip(s)
                  ELSE IF x[1] = "z" THEN Skip(s)
                  ELSE IF k[2] = 0 THEN At(s, <<"t", x>>, Tail(p)) ELSE Throw(s)
             ELSE IF IsRef(x) /\ ~IsMap(s.h, x) THEN Throw(s)
             ELSE IF ~IsRef(x) THEN Skip(s)
             ELSE LET b == Build(s, k[2])
                      i == KeyIdx(b.s.h, x[2], b.x)
                  IN  IF HasKey(b.s.h, x[2], b.x) THEN At(b.s, <<"e", x[2], i>>, Tail(p))
                      ELSE At(b.s, <<"t", Nil>>, Tail(p))

(* copy(): new top level storage of the same type, contents and shape *)
CopyOf(s, x) ==
    IF ~IsRef(x) THEN Boxed(s, x)
    ELSE LET c == s.h[x[2]] IN
         IF c.k = "w"
         THEN LET t == NewCell(NewCell(s, s.h[c.b]), Win(Len(s.h) + 1, c.o, c.d))
              IN  [s |-> t, x |-> Last(t)]
         ELSE LET t == NewCell(s, c) IN [s |-> t, x |-> Last(t)]

(***************************************************************************)
(* Operands.  A variable is passed by copying the holder, an element as a  *)
(* live reference, read when it is used.                                   *)
(***************************************************************************)
Operand(s, src) ==
    CASE src[1] = "L" -> LET b == Build(s, src[2]) IN Out(b.s, <<"t", b.x>>, "ok")
      [] src[1] = "P" -> IF src[3] = <<>> THEN Out(s, <<"t", s.v[src[2]]>>, "ok")
                         ELSE Loc(s, <<"x", src[2]>>, src[3])
      [] src[1] = "A" -> At(s, <<"x", src[2]>>, src[3])
      [] src[1] = "C" -> LET r == Loc(s, <<"x", src[2]>>, src[3])
                         IN  IF r.ok # "ok" THEN r
                             ELSE LET c == CopyOf(r.s, Get(r.s, r.r))
                                  IN  Out(c.s, <<"t", c.x>>, "ok")

(***************************************************************************)
(* Sequence operations on the value in a slot                              *)
(***************************************************************************)
(* Excluded: shrinking an array below the window of a live view *)
Viewed(s, id, n) == \E i \in 1..Len(s.h) :
    s.h[i].k = "w" /\ s.h[i].b = id /\ s.h[i].o + Prod(s.h[i].d) > n
RECURSIVE Drop1(_, _)
Drop1(e, i) == SubSeq(e, 1, i) \o SubSeq(e, i + 2, Len(e))

Resize(s, sl, n) ==
    LET x == Get(s, sl) IN
    IF sl[1] = "d" THEN Done(s)
    ELSE IF IsNil(x) THEN LET t == NewCell(s, Arr("v", Rep(n, Nil))) IN Done(Put(t, sl, Last(t)))
    ELSE IF IsScalar(x)
    THEN IF n <= 1 THEN Done(s)
         ELSE LET t == NewCell(s, Arr(x[1], Grow(x[1], <<x[2]>>, n))) IN Done(Put(t, sl, Last(t)))
    ELSE LET id == x[2]
             c == s.h[id]
         IN  IF c.k = "w" THEN Throw(s)
             ELSE IF n > Len(c.e) /\ c.k = "m" THEN Skip(s)
             ELSE IF n < Len(c.e) /\ Viewed(s, id, n) THEN Skip(s)
             ELSE IF n > Len(c.e) THEN Done([s EXCEPT !.h[id].e = Grow(c.t, @, n)])
             ELSE Done([s EXCEPT !.h[id].e = SubSeq(@, 1, n)])

Push(s, sl, y) ==
    LET x == Get(s, sl)
        v == Get(s, y)
    IN  IF IsNil(x) /\ v[1] = "z" THEN Skip(s)   \* Excluded: is it a scalar or an array?
        ELSE IF IsNil(x) /\ IsScalar(v) THEN Assign(s, sl, v)
        ELSE IF IsScalar(x) /\ x[1] # "z" /\ TypeOf(x) # TypeOf(v) THEN Throw(s)
        ELSE IF x[1] = "z" THEN Skip(s)
        ELSE IF IsMap(s.h, x) THEN Skip(s)
        ELSE LET r == LocInt(s, sl, Size(s.h, x))
             IN  IF r.ok # "ok" THEN r
                 ELSE LET a == Assign(r.s, r.r, Get(r.s, y))
                      IN  a

Pop(s, sl) ==
    LET x == Get(s, sl)
        n == Size(s.h, x)
    IN  IF IsNil(x) THEN Throw(s)
        ELSE IF sl[1] = "d" \/ IsScalar(x) THEN Out(s, x, "ok")
        ELSE IF n = 0 \/ IsView(s.h, x) THEN Throw(s)
        ELSE LET r == Resize(s, sl, n - 1) IN
             Out(r.s, Item(s.h, x[2], n - 1), r.ok)

Shift(s, sl) ==
    LET x == Get(s, sl)
        n == Size(s.h, x)
    IN  IF ~IsRef(x) THEN Out(s, x, "ok")
        ELSE IF n = 0 \/ IsView(s.h, x) THEN Throw(s)
        ELSE IF Viewed(s, x[2], n - 1) THEN Skip(s)
        ELSE Out([s EXCEPT !.h[x[2]].e = Tail(@)], Item(s.h, x[2], 0), "ok")

Array(s, sl) ==
    LET x == Get(s, sl) IN
    IF sl[1] = "d" \/ IsRef(x) THEN Done(s)
    ELSE LET t == NewCell(s, IF IsNil(x) THEN Arr("v", <<Nil>>) ELSE Arr(x[1], <<x[2]>>))
         IN  Done(Put(t, sl, Last(t)))

Unshift(s, sl, y) ==
    LET x == Get(s, sl)
        v == Get(s, y)
    IN  IF IsNil(x) THEN Assign(s, sl, v)
        ELSE LET t == Array(s, sl).s
                 id == Get(t, sl)[2]
                 c == t.h[id]
                 w == Get(t, y)
             IN  IF c.k = "w" THEN Throw(t)
                 ELSE IF c.k = "m" THEN Throw(t)
                 ELSE IF c.t = "v"
                 THEN LET b == Boxed(t, w) IN Done([b.s EXCEPT !.h[id].e = <<b.x>> \o @])
                 ELSE LET n == ToElem(t, c.t, w)
                      IN  IF n.ok = "skip" THEN Skip(s)
                          ELSE IF n.ok # "ok" THEN Throw(t)
                          ELSE Done([t EXCEPT !.h[id].e = <<n.x>> \o @])

(* The elements of y converted to type t *)
Elems(s, t, y) ==
    LET n == Size(s.h, y)
        it(i) == IF IsRef(y) THEN ToElem(s, t, Item(s.h, y[2], i - 1)) ELSE ToElem(s, t, y)
    IN  [ok |-> \A i \in 1..n : it(i).ok = "ok", x |-> [i \in 1..n |-> it(i).x]]

Insert(s, sl, y, i) ==
    LET x == Get(s, sl)
        n == Size(s.h, x)
    IN  IF i > n THEN Throw(s)
        ELSE IF IsMap(s.h, x) \/ IsMap(s.h, Get(s, y)) THEN Skip(s)
        ELSE IF IsRef(x) /\ AType(s.h, x[2]) = "v" /\ ~IsView(s.h, x)
        THEN LET b == Boxed(s, Get(s, y))
             IN  Done([b.s EXCEPT !.h[x[2]].e =
                               SubSeq(@, 1, i) \o <<b.x>> \o SubSeq(@, i + 1, n)])
        ELSE LET v == Get(s, y)
                 m == IF v[1] = "z" THEN 1 ELSE Size(s.h, v)
             IN  IF IsView(s.h, x) THEN Throw(s)
                 ELSE IF IsNil(x)
                 THEN IF m = 0 \/ v[1] = "z" \/ IsView(s.h, v) THEN Skip(s)
                      ELSE IF ~IsRef(v)
                      THEN LET t == NewCell(s, Arr("v", <<v>>)) IN Done(Put(t, sl, Last(t)))
                      ELSE IF AType(s.h, v[2]) = "z" THEN Skip(s)
                      ELSE LET t == NewCell(s, Arr("v", [j \in 1..m |-> Item(s.h, v[2], j - 1)]))
                           IN  Done(Put(t, sl, Last(t)))
                 ELSE IF IsScalar(x) /\ m = 0 THEN Skip(s)
                 ELSE LET t0 == IF IsRef(x) THEN x ELSE Nil
                          ty == IF IsRef(x) THEN AType(s.h, x[2]) ELSE x[1]
                          e == IF IsRef(x) THEN s.h[x[2]].e ELSE <<x[2]>>
                          add == Elems(s, ty, v)
                          e2 == SubSeq(e, 1, i) \o add.x \o SubSeq(e, i + 1, n)
                      IN  IF ~add.ok \/ IsNil(v) THEN Skip(s)
                         \* Excluded: the elements inserted contain the receiver
                         ELSE IF /\ IsRef(x) /\ IsRef(v) /\ AType(s.h, v[2]) = "v"
                                 /\ Reaches(s.h, v, x[2]) THEN Skip(s)
                          ELSE IF IsRef(x) THEN Done([s EXCEPT !.h[x[2]].e = e2])
                          ELSE LET t == NewCell(s, Arr(ty, e2)) IN Done(Put(t, sl, Last(t)))

Remove(s, sl, i) ==
    LET x == Get(s, sl)
        n == Size(s.h, x)
    IN  IF i > n - 1 THEN Throw(s)
        ELSE IF ~IsRef(x) THEN Skip(s)
        ELSE IF IsView(s.h, x) THEN Skip(s)
        ELSE IF Viewed(s, x[2], n - 1) THEN Skip(s)
        ELSE LET c == CopyOf(s, Item(s.h, x[2], i))
             IN  Out([c.s EXCEPT !.h[x[2]].e = Drop1(@, i)], c.x, "ok")

AppendStr(s, sl, codes) ==
    LET x == Get(s, sl) IN
    IF IsNil(x) THEN LET t == NewCell(s, Arr("c", codes)) IN Assign(t, sl, Last(t))
    ELSE IF IsView(s.h, x) THEN Skip(s)
    ELSE IF IsRef(x)
    THEN IF AType(s.h, x[2]) = "c" THEN Done([s EXCEPT !.h[x[2]].e = @ \o codes]) ELSE Throw(s)
    ELSE IF x[1] # "c" THEN Throw(s)
    ELSE LET t == NewCell(s, Arr("c", <<x[2]>> \o codes)) IN Done(Put(t, sl, Last(t)))

(***************************************************************************)
(* Views                                                                   *)
(***************************************************************************)
ViewOf(s, x, d, off) ==
    IF ~IsRef(x) THEN Throw(s)
    ELSE IF IsMap(s.h, x) \/ CSize(s.h[x[2]]) = 0 THEN Skip(s)
    ELSE LET b == BaseOf(s.h, x[2])
             o == OffOf(s.h, x[2]) + off
         IN  IF \/ Len(d) < 1
                \/ o < 0
                \/ \E i \in 1..Len(d) : d[i] < 0
                \/ o + Prod(d) > Len(s.h[b].e)
             THEN Throw(s)
             ELSE IF Prod(d) = 0 THEN Skip(s)
             ELSE LET t == NewCell(s, Win(b, o, d)) IN Out(t, Last(t), "ok")
ShapeOf(h, x) == IF IsView(h, x) THEN h[x[2]].d ELSE <<Size(h, x)>>
SubView(s, x, n, off) ==
    IF n < 1 THEN Throw(s)
    ELSE LET d == ShapeOf(s.h, x)
             k == IF Len(d) > n THEN Len(d) - n ELSE 0
         IN  ViewOf(s, x, SubSeq(d, k + 1, Len(d)), off)
SetOffset(s, x, o) ==
    IF ~IsView(s.h, x) THEN Throw(s)
    ELSE LET w == s.h[x[2]] IN
         IF o < 0 \/ o + Prod(w.d) > Len(s.h[w.b].e) THEN Throw(s)
         ELSE Done([s EXCEPT !.h[x[2]].o = o])
RECURSIVE Flat(_, _)
Flat(d, ix) == IF d = <<>> THEN 0 ELSE Head(ix) * Prod(Tail(d)) + Flat(Tail(d), Tail(ix))
(* operator (): bounds are checked in every dimension *)
LocView(s, x, ix) ==
    IF ~IsRef(x) \/ IsMap(s.h, x) THEN Skip(s)
    ELSE LET d == ShapeOf(s.h, x) IN
         IF Len(ix) # Len(d) THEN Skip(s)
         ELSE IF \E i \in 1..Len(d) : ix[i] \notin 0..d[i]-1 THEN Throw(s)
         ELSE Out(s, SlotOf(s.h, x[2], Flat(d, ix)), "ok")

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
BoolN(b) == IF b THEN 1 ELSE 0
(* Two complex numbers compare by their magnitudes.  Excluded: magnitudes  *)
(* that are equal without being those of the same numbers, and large ones  *)
CxNumber(h, x) == x[1] \in {"y", "z"} \/ (IsRef(x) /\ ~IsMap(h, x) /\ AType(h, x[2]) = "z" /\ Size(h, x) = 1)
CxType(h, x) == IF IsRef(x) THEN "z" ELSE x[1]
CxParts(h, x) == LET z == IF IsRef(x) THEN Item(h, x[2], 0)[2] ELSE x[2]
                     f(q) == IF q < 0 THEN -q ELSE q
                 IN  <<f(z[1]), f(z[2])>>
Mag(h, x) == LET z == CxParts(h, x) IN z[1] * z[1] + z[2] * z[2]
ByMagnitude(h, a, b) ==
    IF ~CxNumber(h, a) \/ ~CxNumber(h, b) THEN FALSE
    ELSE LET p == CxParts(h, a)
             q == CxParts(h, b)
         IN  IF CxType(h, a) # CxType(h, b) \/ p[1] > 400 \/ p[2] > 400 \/ q[1] > 400 \/ q[2] > 400 THEN FALSE
             ELSE p = q \/ p = <<q[2], q[1]>> \/ Mag(h, a) # Mag(h, b)
(* Contents regardless of storage: what two equal values have in common *)
RECURSIVE Deep(_, _)
Deep(h, x) ==
    IF IsNil(x) THEN <<"n">>
    ELSE IF x[1] = "z" THEN <<"A", <<x>>>>
    ELSE IF ~IsRef(x) THEN x
    ELSE IF IsMap(h, x)
    THEN <<"M", [i \in 1..Size(h, x) |-> <<Deep(h, h[x[2]].e[i][1]), Deep(h, Item(h, x[2], i - 1))>>]>>
    ELSE <<"A", [i \in 1..Size(h, x) |->
                  LET y == Item(h, x[2], i - 1) IN IF y[1] = "z" THEN y ELSE Deep(h, y)]>>
RECURSIVE InsertSorted(_, _, _), Sorted(_, _)
InsertSorted(h, r, x) ==
    IF r = <<>> THEN <<x>>
    ELSE IF Lt(h, x, Head(r)) THEN <<x>> \o r
    ELSE <<Head(r)>> \o InsertSorted(h, Tail(r), x)
Sorted(h, q) == IF q = <<>> THEN <<>> ELSE InsertSorted(h, Sorted(h, Tail(q)), Head(q))
Items(h, x) == [i \in 1..Size(h, x) |-> Item(h, x[2], i - 1)]
SortResult(h, x) ==
    IF IsNil(x) THEN <<"A", <<>>>>
    ELSE LET q == Sorted(h, Items(h, x)) IN <<"A", [i \in 1..Len(q) |-> Deep(h, q[i])]>>
RECURSIVE SortRows(_, _, _, _, _)
SortRows(t, e, o, n, k) ==    \* k rows of n elements from o
    IF k = 0 THEN e
    ELSE LET row == SortSeq(SubSeq(e, o + 1, o + n), LAMBDA a, b : IF t = "c" THEN a % 256 < b % 256 ELSE a < b)
         IN  SortRows(t, [i \in 1..Len(e) |-> IF i > o /\ i <= o + n THEN row[i - o] ELSE e[i]], o + n, n, k - 1)
SortInPlace(s, x) ==
    IF ~IsRef(x) THEN Skip(s)
    ELSE IF HasU(s.h, x) \/ Size(s.h, x) = 0 THEN Skip(s)
    ELSE IF AType(s.h, x[2]) \in {"v", "p", "y", "z"} THEN Throw(s)
    ELSE LET d == ShapeOf(s.h, x)
             n == d[Len(d)]
         IN  IF Prod(d) = 0 THEN Skip(s)
             ELSE Done([s EXCEPT !.h[BaseOf(s.h, x[2])].e = SortRows(AType(s.h, x[2]), @, OffOf(s.h, x[2]), n, Prod(d) \div n)])
ATypeNo(h, x) == IF IsRef(x) THEN TypeNo(AType(h, x[2])) ELSE TypeNo(x[1])
IndexOf(h, x, y) ==
    IF IsNil(x) THEN -1
    ELSE IF IsMap(h, x) THEN (IF HasKey(h, x[2], y) THEN KeyIdx(h, x[2], y) ELSE -1)
    ELSE IF ~IsRef(x) THEN (IF Eq(h, x, y) THEN 0 ELSE -1)
    ELSE LET m == {i \in 0..Size(h, x) - 1 : Eq(h, Item(h, x[2], i), y)}
         IN  IF m = {} THEN -1 ELSE CHOOSE i \in m : \A j \in m : i <= j

(***************************************************************************)
(* One operation.  sl is the slot of the receiver, always located by [].   *)
(***************************************************************************)
(* store the result r of a step into variable z (0: discard it) *)
Into(r, z) == IF r.ok # "ok" \/ z = 0 THEN r ELSE Assign(r.s, <<"x", z>>, r.r)

Mutators == {"set", "push", "ins", "app", "com", "uns"}
Apply0(s, op) ==
    LET o == op[1] IN
    IF o \in Mutators
    THEN LET y == Operand(s, op[4]) IN
         IF y.ok # "ok" THEN y
         ELSE LET l == Loc(y.s, <<"x", op[2]>>, op[3]) IN
              IF l.ok # "ok" THEN l
              ELSE IF l.r[1] = "t" THEN Skip(s)
              ELSE IF o # "set" /\ o # "push" /\ l.r[1] = "d" THEN Skip(s)
              ELSE CASE o = "set" -> Assign(l.s, l.r, Get(l.s, y.r))
                     [] o = "push" -> Push(l.s, l.r, y.r)
                     [] o = "uns" -> Unshift(l.s, l.r, y.r)
                     [] o = "ins" -> Insert(l.s, l.r, y.r, op[5])
                     [] o \in {"app", "com"} ->
                          Insert(l.s, l.r, y.r, Size(l.s.h, Get(l.s, l.r)))
    ELSE IF o \in {"pop", "shift", "rem", "resize", "presize", "clear", "array", "apps", "view"}
    THEN LET l == Loc(s, <<"x", op[2]>>, op[3]) IN
         IF l.ok # "ok" THEN l
         ELSE IF l.r[1] \in {"t", "d"} THEN Skip(s)
         ELSE CASE o = "pop" -> Into(Pop(l.s, l.r), op[4])
                [] o = "shift" -> Into(Shift(l.s, l.r), op[4])
                [] o = "rem" -> Into(Remove(l.s, l.r, op[5]), op[4])
                [] o = "resize" -> Resize(l.s, l.r, op[4])
                [] o = "presize" ->
                     LET n == Size(l.s.h, Get(l.s, l.r))
                         a == Resize(l.s, l.r, op[4])
                     IN  IF a.ok # "ok" THEN a ELSE Resize(a.s, l.r, n)
                [] o = "clear" -> Assign(l.s, l.r, Nil)
                [] o = "array" -> Array(l.s, l.r)
                [] o = "apps" -> AppendStr(l.s, l.r, op[4])
                [] o = "view" -> Into(ViewOf(l.s, Get(l.s, l.r), op[5], op[6]), op[4])
    ELSE IF o = "subv" THEN Into(SubView(s, s.v[op[2]], op[4], op[5]), op[3])
    ELSE IF o = "offs" THEN SetOffset(s, s.v[op[2]], op[3])
    ELSE IF o = "adv" THEN SetOffset(s, s.v[op[2]], op[3] +
                              (IF IsView(s.h, s.v[op[2]]) THEN s.h[s.v[op[2]][2]].o ELSE 0))
    ELSE IF o = "vset"
    THEN LET y == Operand(s, op[4]) IN
         IF y.ok # "ok" THEN y
         ELSE LET l == LocView(y.s, y.s.v[op[2]], op[3])
              IN  IF l.ok # "ok" THEN l ELSE Assign(l.s, l.r, Get(l.s, y.r))
    ELSE IF o = "vget"
    THEN LET l == LocView(s, s.v[op[2]], op[3])
         IN  IF l.ok # "ok" THEN l ELSE Assign(l.s, <<"x", op[4]>>, Get(l.s, l.r))
    ELSE IF o = "scope"       \* passed by value to a function that changes it
    THEN LET s1 == [s EXCEPT !.v = Append(@, s.v[op[2]])]
             y == Operand(s1, op[4])
         IN  IF y.ok # "ok" THEN Out([y.s EXCEPT !.v = SubSeq(@, 1, Len(s.v))], Nil, y.ok)
             ELSE LET l == Loc(y.s, <<"x", Len(s1.v)>>, op[3])
                      a == IF l.ok # "ok" THEN l
                           ELSE IF l.r[1] = "t" THEN Skip(s1)
                           ELSE Assign(l.s, l.r, Get(l.s, y.r))
                  IN  Out([a.s EXCEPT !.v = SubSeq(@, 1, Len(s.v))], Nil, a.ok)
    ELSE IF o = "hold"        \* an element reference outlives the variable
    THEN LET l == Loc(s, <<"x", op[2]>>, op[3]) IN
         IF l.ok # "ok" THEN l
         ELSE LET a == Assign(l.s, <<"x", op[2]>>, Nil)
              IN  IF l.r[1] = "x" THEN Skip(s)
                  ELSE Assign(a.s, <<"x", op[4]>>, Get(a.s, l.r))
    ELSE IF o = "size" THEN
         LET l == At(s, <<"x", op[2]>>, op[3]) IN
         IF l.ok # "ok" THEN l
         ELSE LET x == Get(l.s, l.r) IN
              Out(l.s, <<"q", IF x[1] = "z" THEN 1 ELSE Size(l.s.h, x),
                         IF l.r[1] = "d" /\ x[1] = "z" THEN 7 ELSE TypeOf(x),
                         BoolN(~IsNil(x)), IF IsNil(x) THEN 0 ELSE ATypeNo(l.s.h, x)>>, "ok")
    ELSE IF o = "index" THEN
         LET y == Operand(s, op[4]) IN
         IF y.ok # "ok" THEN y
         ELSE LET l == At(y.s, <<"x", op[2]>>, op[3]) IN
              IF l.ok # "ok" THEN l
              ELSE LET x == Get(l.s, l.r)
                       v == Get(l.s, y.r)
                   IN  IF HasU(l.s.h, x) \/ HasU(l.s.h, v) \/ x[1] = "z" \/ l.r[1] = "d" THEN Skip(s)
                       ELSE IF IsMap(l.s.h, x) /\ Unordered(l.s.h, v) THEN Skip(s)
                       ELSE Out(l.s, <<"q", IndexOf(l.s.h, x, v)>>, "ok")
    ELSE IF o = "key" THEN
         LET x == s.v[op[2]] IN
         IF IsNil(x) THEN Throw(s)
         ELSE IF ~IsMap(s.h, x) THEN Throw(s)
         ELSE IF op[3] \notin 0..Size(s.h, x) - 1 THEN Throw(s)
         ELSE Assign(s, <<"x", op[4]>>, s.h[x[2]].e[op[3]+1][1])
    ELSE IF o = "cmp" THEN
         LET a == s.v[op[2]]
             b == s.v[op[3]]
         IN  IF HasU(s.h, a) \/ HasU(s.h, b) THEN Skip(s)
             ELSE IF ByMagnitude(s.h, a, b) THEN Out(s, <<"q", BoolN(Eq(s.h, a, b)), BoolN(Mag(s.h, a) < Mag(s.h, b)), BoolN(Mag(s.h, b) < Mag(s.h, a))>>, "ok")
             ELSE IF Unordered(s.h, a) \/ Unordered(s.h, b) THEN Out(s, <<"q", BoolN(Eq(s.h, a, b))>>, "ok")
             ELSE Out(s, <<"q", BoolN(Eq(s.h, a, b)), BoolN(Lt(s.h, a, b)), BoolN(Lt(s.h, b, a))>>, "ok")
    ELSE IF o = "cmpe" THEN      \* elements compared through live references
         LET la == At(s, <<"x", op[2]>>, op[3])
             lb == At(s, <<"x", op[4]>>, op[5])
         IN  IF la.ok # "ok" THEN la ELSE IF lb.ok # "ok" THEN lb
             ELSE LET a == Get(s, la.r)
                      b == Get(s, lb.r)
                  IN  IF HasU(s.h, a) \/ HasU(s.h, b) THEN Skip(s)
                      ELSE IF ByMagnitude(s.h, a, b)
                      THEN Out(s, <<"q", BoolN(Eq(s.h, a, b)), BoolN(Mag(s.h, a) < Mag(s.h, b)), BoolN(Mag(s.h, b) < Mag(s.h, a))>>, "ok")
                      ELSE IF Unordered(s.h, a) \/ Unordered(s.h, b)
                      THEN Out(s, <<"q", BoolN(Eq(s.h, a, b))>>, "ok")
                      ELSE Out(s, <<"q", BoolN(Eq(s.h, a, b)), BoolN(Lt(s.h, a, b)), BoolN(Lt(s.h, b, a))>>, "ok")
    ELSE IF o = "sort" THEN
         LET l == At(s, <<"x", op[2]>>, op[3]) IN
         IF l.ok # "ok" THEN l
         ELSE LET x == Get(s, l.r) IN
              IF HasU(s.h, x) \/ Unordered(s.h, x) \/ IsMap(s.h, x) \/ ~IsRef(x) THEN Skip(s)
              ELSE Out(s, <<"q", SortResult(s.h, x)>>, "ok")
    ELSE IF o = "fsort" THEN SortInPlace(s, s.v[op[2]])
    ELSE IF o = "shape" THEN
         LET x == s.v[op[2]]
             d == ShapeOf(s.h, x)
         IN  Out(s, <<"q", Len(d), IF IsRef(x) THEN OffOf(s.h, x[2]) ELSE 0, d, [i \in 1..Len(d) |-> StrideOf(d, i)],
                      BoolN(IsView(s.h, x))>>, "ok")
    ELSE Assert(FALSE, op)
=============================================================================
