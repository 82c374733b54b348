-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Directory listings.  A file system is a function from locations, which  *)
(* are sequences of names, to <<kind, target>>: "f" a file, "d" a          *)
(* directory, "l" a symbolic link to a location.  A path is what a program *)
(* says: text, and whether it counts from the root of the file system or   *)
(* from the working directory (the same place here, said differently).     *)
(* dir and rdir do not follow the links they list; tree does.              *)
(***************************************************************************)
EXTENDS StoreStep, Text

FOk(x) == [ok |-> "ok", x |-> x]
FBad(ok) == [ok |-> ok, x |-> <<>>]
Slash == 47
Parts(t) == \* the text between slashes
    LET RECURSIVE P(_, _, _)
        P(i, acc, cur) == IF i > Len(t) THEN Append(acc, cur)
                          ELSE IF t[i] = Slash THEN P(i + 1, Append(acc, cur), <<>>)
                          ELSE P(i + 1, acc, Append(cur, t[i]))
    IN  P(1, <<>>, <<>>)
IsDirAt(t, loc) == loc = <<>> \/ (loc \in DOMAIN t /\ t[loc][1] = "d")
(* where the names lead from a location; not claimed: more than n links *)
RECURSIVE Walk(_, _, _, _)
Walk(t, cur, ps, n) ==
    IF ps = <<>> THEN FOk(cur)
    ELSE IF ~IsDirAt(t, cur) THEN FBad("throw")
    ELSE IF Head(ps) = <<>> \/ Head(ps) = B(".") THEN Walk(t, cur, Tail(ps), n)
    ELSE IF Head(ps) = B("..") THEN (IF cur = <<>> THEN FBad("skip") ELSE Walk(t, SubSeq(cur, 1, Len(cur) - 1), Tail(ps), n))
    ELSE LET loc == Append(cur, Head(ps)) IN
         IF loc \notin DOMAIN t THEN FBad("throw")
         ELSE IF t[loc][1] = "l" THEN (IF n = 0 THEN FBad("skip") ELSE Walk(t, <<>>, t[loc][2] \o Tail(ps), n - 1))
         ELSE Walk(t, loc, Tail(ps), n)
Links == 12
Where(t, p) ==   \* p = <<from the root, text>>
    IF ~p[1] /\ p[2] = <<>> THEN FBad("throw") ELSE Walk(t, <<>>, Parts(p[2]), Links)
Under(t, loc) == {l \in DOMAIN t : Len(l) = Len(loc) + 1 /\ SubSeq(l, 1, Len(loc)) = loc}
Name(l) == l[Len(l)]
Join1(p, name) == IF p # <<>> /\ p[Len(p)] = Slash THEN p \o name ELSE p \o <<Slash>> \o name
RECURSIVE SeqOf(_), Below(_, _, _)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
(* the texts of everything at any depth *)
Below(t, loc, p) ==
    UNION {LET q == Join1(p, Name(l)) IN {q} \cup (IF t[l][1] = "d" THEN Below(t, l, q) ELSE {}) : l \in Under(t, loc)}
(* parent, stem and extension *)
LastIn(t, c) == IF \E i \in 1..Len(t) : t[i] = c THEN CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in (i + 1)..Len(t) : t[j] # c ELSE 0
Bits(p) ==
    LET sl == LastIn(p, Slash)
        file == From(p, sl + 1)
        dot == LastIn(file, 46)
        k == IF dot <= 1 \/ file = B("..") THEN Len(file) + 1 ELSE dot
    IN  [parent |-> IF sl = 0 THEN <<>> ELSE SubSeq(p, 1, sl - 1), stem |-> SubSeq(file, 1, k - 1), ext |-> From(file, k)]
BitsOf(p) == LET b == Bits(p) IN <<"v", <<<<"s", b.parent>>, <<"s", b.stem>>, <<"s", b.ext>>>>>>
Listing(S, val) ==
    IF S = {} THEN Nil
    ELSE LET q == SeqOf(S) IN <<"m", [i \in 1..Len(q) |-> <<<<"s", q[i]>>, IF val THEN BitsOf(q[i]) ELSE Nil>>]>>
DirOf(t, p, val) ==
    LET w == Where(t, p) IN
    IF w.ok # "ok" THEN w
    ELSE IF ~IsDirAt(t, w.x) THEN FBad("throw")
    ELSE FOk(Listing({Join1(p[2], Name(l)) : l \in Under(t, w.x)}, val))
RdirOf(t, p, val) ==
    LET w == Where(t, p) IN
    IF w.ok # "ok" THEN w
    ELSE IF ~IsDirAt(t, w.x) THEN FOk(Listing({p[2]}, val))
    ELSE FOk(Listing(Below(t, w.x, p[2]), val))
RECURSIVE TreeAt(_, _, _)
TreeAt(t, loc, n) ==     \* ends at n levels: links to what is above
    LET es == SeqOf(Under(t, loc))
        dest == [i \in 1..Len(es) |-> Walk(t, loc, <<Name(es[i])>>, Links)]
        sub == [i \in 1..Len(es) |-> IF dest[i].ok = "ok" /\ IsDirAt(t, dest[i].x)
                                     THEN (IF n = 0 THEN FBad("skip") ELSE TreeAt(t, dest[i].x, n - 1)) ELSE FOk(Nil)]
    IN  IF \E i \in 1..Len(es) : sub[i].ok # "ok" \/ dest[i].ok = "skip" THEN FBad("skip")
        ELSE FOk(IF es = <<>> THEN Nil ELSE <<"m", [i \in 1..Len(es) |-> <<<<"s", Name(es[i])>>, sub[i].x>>]>>)
TreeOf(t, p) ==
    LET w == Where(t, p) IN
    IF w.ok # "ok" THEN w ELSE IF ~IsDirAt(t, w.x) THEN FBad("throw") ELSE TreeAt(t, w.x, 8)

(***************************************************************************)
(* Operations; f = [t: file system, ob: the paths of the objects made]     *)
(***************************************************************************)
FsOps == {"fmk", "frm", "pmake", "phere", "pdir", "prdir", "ptree"}
PInto(st, z, r) == IF r.ok = "skip" THEN Skip(st) ELSE IF r.ok # "ok" THEN Throw(st)
                   ELSE LET b == Build(st, r.x) IN Assign(b.s, <<"x", z>>, b.x)
(* the file system after an operation *)
FsAfter(f, op) ==
    CASE op[1] = "fmk" -> [f EXCEPT !.t = [l \in DOMAIN @ \cup {op[3]} |-> IF l = op[3] THEN <<op[2], op[4]>> ELSE @[l]]]
      [] op[1] = "frm" -> [f EXCEPT !.t = [l \in {l \in DOMAIN @ : SubSeq(l, 1, IF Len(l) < Len(op[2]) THEN Len(l) ELSE Len(op[2])) # op[2]} |-> @[l]]]
      [] op[1] = "pmake" -> [f EXCEPT !.ob = Append(@, <<op[2] = 1, op[3]>>)]
      [] op[1] = "phere" -> [f EXCEPT !.ob = Append(@, <<TRUE, <<>>>>)]
      [] OTHER -> f
PApply(st, f, op) ==
    LET p == f.ob[op[2]]
        \* Excluded: the parent of what follows two slashes
        odd == \E i \in 1..Len(p[2]) - 1 : p[2][i] = Slash /\ p[2][i + 1] = Slash
    IN
    CASE op[1] = "fmk" -> IF op[3] = <<>> \/ op[3] \in DOMAIN f.t \/ ~IsDirAt(f.t, SubSeq(op[3], 1, Len(op[3]) - 1)) THEN Skip(st) ELSE Done(st)
      [] op[1] = "frm" -> IF op[2] \notin DOMAIN f.t THEN Skip(st) ELSE Done(st)
      [] op[1] \in {"pmake", "phere"} -> IF Len(f.ob) = 5 THEN Skip(st) ELSE Done(st)
      [] op[1] = "pdir" -> IF odd /\ op[3] = 1 THEN Skip(st) ELSE PInto(st, op[4], DirOf(f.t, p, op[3] = 1))
      [] op[1] = "prdir" -> IF odd /\ op[3] = 1 THEN Skip(st) ELSE PInto(st, op[4], RdirOf(f.t, p, op[3] = 1))
      [] op[1] = "ptree" -> PInto(st, op[3], TreeOf(f.t, p))

(***************************************************************************)
(* In the model                                                            *)
(***************************************************************************)
(* what is listed with its parts is put together from them *)
Whole(p) == LET b == Bits(p) IN (IF b.parent = <<>> /\ (p = <<>> \/ p[1] # Slash) THEN <<>> ELSE b.parent \o <<Slash>>) \o b.stem \o b.ext = p
(* everything there is, is listed once below the root *)
Everything(t) == LET r == RdirOf(t, <<FALSE, B(".")>>, FALSE) IN
                 r.ok = "ok" /\ (IF DOMAIN t = {} THEN r.x = Nil ELSE Len(r.x[2]) = Len(SeqOf(DOMAIN t)))
=============================================================================
