------------------------------- MODULE Gedcom -------------------------------
(***************************************************************************)
(* GEDCOM files: what the lines of a text say of individuals and families. *)
(* A line is a level, perhaps a name between @s, a tag and what follows.   *)
(*                                                                         *)
(* f = [fl: files (None if there is none), in: which readers there are]    *)
(***************************************************************************)
EXTENDS StoreStep, Text

None == <<-1000>>
F0 == [fl |-> <<None, None>>, in |-> <<FALSE, FALSE>>]
GR(st, f, ok, r) == [s |-> st, f |-> f, ok |-> ok, r |-> r]

RECURSIVE UpTo(_, _, _), LinesOf(_, _)
UpTo(t, p, ch) == IF p > Len(t) THEN p ELSE IF t[p] = ch THEN p ELSE UpTo(t, p + 1, ch)
LinesOf(t, acc) == IF t = <<>> THEN acc
                   ELSE LET n == UpTo(t, 1, 10) IN LinesOf(From(t, n + 1), Append(acc, SubSeq(t, 1, n - 1)))
Tags == {B("NAME"), B("TITL"), B("SEX"), B("FAMC"), B("FAMS"), B("BIRT"), B("DEAT"), B("CHR"), B("BURI"), B("PLAC"), B("DATE"), B("OCCU"), B("NOTE"), B("HUSB"),
         B("WIFE"), B("CHIL"), B("MARR"), B("DIV"), B("REFN"), B("CONT"), B("CONC")}
Events == {B("BIRT"), B("DEAT"), B("CHR"), B("BURI"), B("MARR")}
Detail == {B("DATE"), B("PLAC"), B("NOTE"), B("CONT"), B("CONC"), B("REFN")}
(* [ok, l: level, x: name, t: tag, a: the rest] *)
LineOf(t) ==
    LET n == UpTo(t, 1, 32)
        lv == SubSeq(t, 1, n - 1)
        r == From(t, n + 1)
        m == UpTo(r, 1, 32)
        x == r # <<>> /\ r[1] = 64
        r2 == IF x THEN From(r, m + 1) ELSE r
        k == UpTo(r2, 1, 32)
        bad(ok) == [ok |-> ok, l |-> 0, x |-> <<>>, t |-> <<>>, a |-> <<>>]
    IN  IF lv = <<>> \/ lv[1] \notin 48..57
        THEN (IF lv # <<>> /\ lv[1] \in {9, 11, 12, 13, 32, 43, 45, 46} THEN bad("skip") ELSE bad("throw"))
        ELSE IF Len(lv) # 1 \/ k = 1 THEN bad("skip")
        ELSE [ok |-> "ok", l |-> lv[1] - 48, x |-> IF x THEN SubSeq(r, 1, m - 1) ELSE <<>>, t |-> SubSeq(r2, 1, k - 1), a |-> From(r2, k + 1)]

Word1(a) == SubSeq(a, 1, UpTo(a, 1, 32) - 1)
(* acc = [cur: "no", "head", "ind" or "fam", l: level before, ev: tag of level 1, ind, fam: records, who: their names, told: names referred to in vain] *)
RECURSIVE Read1(_, _, _)
Ends(ok, acc) == [ok |-> ok, acc |-> acc]
WhoIs(acc, x) == LET m == {i \in 1..Len(acc.who) : acc.who[i] = x} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : j <= i
InInd(acc, q) == CASE q.t = B("NAME") -> [acc EXCEPT !.ind[Len(acc.ind)].name = <<"s", q.a>>]
                   [] q.t = B("TITL") -> [acc EXCEPT !.ind[Len(acc.ind)].titl = <<"s", q.a>>]
                   [] q.t = B("SEX") -> [acc EXCEPT !.ind[Len(acc.ind)].sex = <<"s", q.a>>]
                   [] OTHER -> acc
InFam(acc, q) == LET w == WhoIs(acc, Word1(q.a))
                     n == Len(acc.fam)
                 IN  IF q.t \notin {B("HUSB"), B("WIFE"), B("CHIL")} THEN acc
                     ELSE IF w = 0 THEN [acc EXCEPT !.told = @ \cup {Word1(q.a)}]
                     ELSE CASE q.t = B("HUSB") -> [acc EXCEPT !.fam[n].husb = <<"i", w - 1>>]
                            [] q.t = B("WIFE") -> [acc EXCEPT !.fam[n].wife = <<"i", w - 1>>]
                            [] OTHER -> [acc EXCEPT !.fam[n].chil = Append(@, w - 1)]
Read1(ls, i, acc) ==
    IF i > Len(ls) THEN Ends("throw", acc)                \* no trailer
    ELSE LET q == LineOf(ls[i])
             next(a) == Read1(ls, i + 1, [a EXCEPT !.l = q.l])
         IN
    IF q.ok # "ok" THEN Ends(q.ok, acc)
    \* Excluded: levels left out; a file that does not begin at level 0
    ELSE IF q.l > acc.l + 1 THEN Ends("skip", acc)
    ELSE IF q.l = 0
    THEN IF q.x = <<>>
         THEN IF q.t = B("TRLR") THEN Ends("ok", acc)
              ELSE IF q.t = B("HEAD") THEN next([acc EXCEPT !.cur = "head"]) ELSE Ends("skip", acc)
         ELSE IF q.t = B("SUBM") THEN next([acc EXCEPT !.cur = "head"])
         ELSE IF q.t = B("INDI")
         THEN IF q.x \in acc.told THEN Ends("skip", acc)
              ELSE next([acc EXCEPT !.cur = "ind", !.ind = Append(@, [name |-> Nil, titl |-> Nil, sex |-> Nil]), !.who = Append(@, q.x)])
         ELSE IF q.t = B("FAM") THEN next([acc EXCEPT !.cur = "fam", !.fam = Append(@, [husb |-> Nil, wife |-> Nil, chil |-> <<>>])])
         ELSE Ends("skip", acc)
    ELSE IF acc.cur = "head" THEN next(acc)
    \* Excluded: tags the reader does not know; further names
    ELSE IF q.x # <<>> \/ q.t \notin Tags THEN Ends("skip", acc)
    ELSE IF q.l = 1
    THEN IF q.t \in {B("CONT"), B("CONC"), B("DATE"), B("PLAC")} \/ (q.t \in {B("HUSB"), B("WIFE"), B("CHIL")} /\ (q.a = <<>> \/ acc.cur # "fam"))
            \/ (q.t = B("MARR") /\ acc.cur # "fam") THEN Ends("skip", acc)
         ELSE IF acc.cur = "fam" /\ q.t \in Events \ {B("MARR")} THEN Ends("skip", acc)
         \* Excluded: references in a file without individuals so far
         ELSE IF q.t \in {B("HUSB"), B("WIFE"), B("CHIL")} /\ acc.ind = <<>> THEN Ends("skip", acc)
         ELSE IF acc.cur = "ind" THEN next([InInd(acc, q) EXCEPT !.ev = q.t])
         ELSE next([InFam(acc, q) EXCEPT !.ev = q.t])
    ELSE IF acc.ev \in Events \/ q.t \in Detail THEN next(acc)
    ELSE Ends("skip", acc)
Said(t) == Read1(LinesOf(t, <<>>), 1, [cur |-> "no", l |-> -1, ev |-> <<>>, ind |-> <<>>, fam |-> <<>>, who |-> <<>>, told |-> {}])
Key1(w) == <<"s", B(w)>>
IndLit(p) == <<"m", <<<<Key1("NAME"), p.name>>, <<Key1("SEX"), p.sex>>, <<Key1("TITL"), p.titl>>>>>>
(* one child is a number, more are an array of them *)
FamLit(p) == <<"m", <<<<Key1("CHIL"), IF p.chil = <<>> THEN Nil ELSE IF Len(p.chil) = 1 THEN <<"i", p.chil[1]>> ELSE <<"a", "i", p.chil>>>>,
                      <<Key1("HUSB"), p.husb>>, <<Key1("WIFE"), p.wife>>>>>>
SaidLit(acc) ==
    LET i == <<Key1("Individual"), <<"v", [k \in 1..Len(acc.ind) |-> IndLit(acc.ind[k])]>>>>
        m == <<Key1("Family"), <<"v", [k \in 1..Len(acc.fam) |-> FamLit(acc.fam[k])]>>>>
    IN  IF acc.ind = <<>> /\ acc.fam = <<>> THEN Nil
        ELSE <<"m", (IF acc.fam = <<>> THEN <<>> ELSE <<m>>) \o (IF acc.ind = <<>> THEN <<>> ELSE <<i>>)>>

GApply(st, f, op) ==
    LET o == op[1]
        no == GR(st, f, "skip", <<>>)
    IN
    CASE o = "gedput" -> GR(st, [f EXCEPT !.fl[op[2]] = op[3]], "ok", <<>>)
      [] o = "geddel" -> GR(st, [f EXCEPT !.fl[op[2]] = None], "ok", <<>>)
      [] o = "gednew" -> GR(st, [f EXCEPT !.in[op[2]] = TRUE], "ok", <<>>)
      [] o = "gedend" -> GR(st, [f EXCEPT !.in = <<FALSE, FALSE>>], "ok", <<>>)
      [] o = "gedread" ->
           IF ~f.in[op[2]] THEN no
           ELSE IF f.fl[op[3]] = None THEN GR(st, f, "throw", <<>>)
           ELSE LET a == Said(f.fl[op[3]]) IN
                IF a.ok # "ok" THEN GR(st, f, a.ok, <<>>)
                ELSE LET b == Build(st, SaidLit(a.acc))
                         c == Assign(b.s, <<"x", op[4]>>, b.x)
                     IN  IF c.ok # "ok" THEN no ELSE GR(c.s, f, "ok", <<>>)
GedOps == {"gedput", "geddel", "gednew", "gedend", "gedread"}
=============================================================================
