------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Configuration and command line options.  The configuration is one map   *)
(* of sections for the whole program: it is kept as a further variable of  *)
(* the store, number NV + 1, that no program sees, so that values in it    *)
(* can be shared with variables.  So is the map of options, number NV + 2. *)
(*                                                                         *)
(* g: [cf |-> section of each Config object (None: no object),             *)
(*     op |-> the Option object: <<>> or                                   *)
(*            [name, decl (sequence of <<char, takes an argument>>), usage,*)
(*             rest (non-option arguments of the last parse, or <<>>),     *)
(*             prog]]                                                      *)
(***************************************************************************)
EXTENDS Conv, JsonText
CONSTANT NHidden        \* where the hidden variables start: NV

None == <<-1000>>
CRoot == NHidden + 1
ORoot == NHidden + 2
(* what a program sees *)
Visible(st) == [st EXCEPT !.v = SubSeq(@, 1, NHidden)]
CObs(st) == LET t == Canon(Visible(st)) IN <<t.v, [i \in 1..Len(t.h) |-> IF t.h[i].k = "w" THEN <<"w", t.h[i].b, t.h[i].o, t.h[i].d>>
                 ELSE IF t.h[i].k = "m" THEN <<"m", t.h[i].e>> ELSE <<"a", t.h[i].t, t.h[i].e>>]>>

(***************************************************************************)
(* ini texts: the sequence of <<section, key, value>> that one gives       *)
(***************************************************************************)
RECURSIVE UptoCh(_, _, _), IniLines(_, _), IniFrom(_, _, _)
UptoCh(t, ch, n) == IF n >= Len(t) THEN Len(t) ELSE IF t[n + 1] = ch THEN n ELSE UptoCh(t, ch, n + 1)
IniLines(t, acc) == IF t = <<>> THEN acc
                    ELSE LET n == UptoCh(t, 10, 0) IN IniLines(From(t, n + 2), Append(acc, SubSeq(t, 1, n)))
LStripped(t) == LET n == CHOOSE n \in 0..Len(t) : (\A i \in 1..n : t[i] \in White) /\ (n = Len(t) \/ t[n + 1] \notin White) IN From(t, n + 1)
RStripped(t) == LET n == CHOOSE n \in 0..Len(t) : (\A i \in n + 1..Len(t) : t[i] \in White) /\ (n = 0 \/ t[n] \notin White) IN SubSeq(t, 1, n)
Trimmed(t) == RStripped(LStripped(t))
IniFrom(ls, sec, acc) ==
    IF ls = <<>> THEN [ok |-> "ok", x |-> acc]
    ELSE LET f == Trimmed(Head(ls)) IN
         IF f = <<>> \/ f[1] \in {59, 35} THEN IniFrom(Tail(ls), sec, acc)
         ELSE IF f[1] = 91
         THEN LET n == UptoCh(f, 93, 0) IN
              IF n = Len(f) THEN [ok |-> "throw", x |-> <<>>]
              ELSE IniFrom(Tail(ls), SubSeq(f, 2, n), acc)
         ELSE LET e == UptoCh(f, 61, 0)
                  c == UptoCh(f, 58, 0)
                  n == IF e < Len(f) THEN e ELSE c
              IN  IF f[1] \in {61, 58} THEN [ok |-> "skip", x |-> <<>>]        \* Excluded: no key
                  ELSE IF n = Len(f) THEN [ok |-> "throw", x |-> <<>>]
                  ELSE IniFrom(Tail(ls), sec, Append(acc, <<sec, Trimmed(SubSeq(f, 1, n)), Trimmed(From(f, n + 2))>>))
Ini(t) == IniFrom(IniLines(t, <<>>), <<>>, <<>>)
IniLit(q) ==      \* as a map of sections
    IF q = <<>> THEN Nil
    ELSE LET secs == {q[i][1] : i \in 1..Len(q)}
             first(x) == CHOOSE i \in 1..Len(q) : q[i][1] = x /\ \A j \in 1..i - 1 : q[j][1] # x
             one(x) == LET m == SelectSeq(q, LAMBDA y : y[1] = x) IN <<"m", [i \in 1..Len(m) |-> <<<<"s", m[i][2]>>, <<"s", m[i][3]>>>>]>>
             o == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : first(q[i][1]) = i)
         IN  <<"m", [i \in 1..Len(o) |-> <<<<"s", q[o[i]][1]>>, one(q[o[i]][1])>>]>>
RECURSIVE SetAll(_, _)
SetAt(st, sec, k, x) ==
    LET l == Loc(st, <<"x", CRoot>>, <<<<"k", <<"s", sec>>>>, <<"k", k>>>>) IN
    IF l.ok # "ok" THEN Skip(st)
    ELSE IF IsView(l.s.h, Get(l.s, l.r)) THEN Skip(st) ELSE Assign(l.s, l.r, x)
SetAll(st, q) ==
    IF q = <<>> THEN Done(st)
    ELSE LET b == Build(st, <<"s", q[1][3]>>)
             a == SetAt(b.s, q[1][1], <<"s", q[1][2]>>, b.x)
         IN  IF a.ok # "ok" THEN a ELSE SetAll(a.s, Tail(q))

(***************************************************************************)
(* Lookups                                                                 *)
(***************************************************************************)
SecMap(st, sec) ==      \* the map of a section or nil
    LET r == st.v[CRoot]
        b == Build(st, <<"s", sec>>)
    IN  IF ~IsRef(r) \/ sec = <<-1>> THEN Nil
        ELSE IF HasKey(b.s.h, r[2], b.x) THEN b.s.h[r[2]].e[KeyIdx(b.s.h, r[2], b.x) + 1][2] ELSE Nil
Found(st, sec, k) ==
    LET m == SecMap(st, sec)
        b == Build(st, k)
    IN  IF ~IsRef(m) THEN [has |-> FALSE, x |-> Nil]
        ELSE IF HasKey(b.s.h, m[2], b.x) THEN [has |-> TRUE, x |-> b.s.h[m[2]].e[KeyIdx(b.s.h, m[2], b.x) + 1][2]]
        ELSE [has |-> FALSE, x |-> Nil]
NilSec == <<-1>>      \* the section of a Config without one
SecOf(l) == IF l = Nil THEN NilSec ELSE l[2]

(***************************************************************************)
(* Options                                                                 *)
(***************************************************************************)
TakesArg(decl, ch) == \E i \in 1..Len(decl) : decl[i] = <<ch, TRUE>>
Declared(decl, ch) == \E i \in 1..Len(decl) : decl[i][1] = ch
(* the events of a command line: <<char, argument or None>> for options,   *)
(* <<63, None>> for one that is unknown or lacks its argument; and the     *)
(* arguments left over                                                     *)
RECURSIVE Cluster(_, _, _, _), Scan(_, _, _, _)
Cluster(decl, t, next, acc) ==      \* t: what is left of the argument
    IF t = <<>> THEN [used |-> FALSE, ev |-> acc]
    ELSE IF ~Declared(decl, t[1]) THEN Cluster(decl, Tail(t), next, Append(acc, <<63, None>>))
    ELSE IF ~TakesArg(decl, t[1]) THEN Cluster(decl, Tail(t), next, Append(acc, <<t[1], None>>))
    ELSE IF Tail(t) # <<>> THEN [used |-> FALSE, ev |-> Append(acc, <<t[1], Tail(t)>>)]
    ELSE IF next = None THEN [used |-> FALSE, ev |-> Append(acc, <<63, None>>)]
    ELSE [used |-> TRUE, ev |-> Append(acc, <<t[1], next>>)]
Scan(decl, args, ev, rest) ==
    IF args = <<>> THEN [ev |-> ev, rest |-> rest]
    ELSE LET a == Head(args) IN
         IF a = <<45, 45>> THEN [ev |-> ev, rest |-> rest \o Tail(args)]
         ELSE IF Len(a) < 2 \/ a[1] # 45 THEN Scan(decl, Tail(args), ev, Append(rest, a))
         ELSE LET c == Cluster(decl, Tail(a), IF Len(args) > 1 THEN args[2] ELSE None, <<>>) IN
              Scan(decl, IF c.used THEN Tail(Tail(args)) ELSE Tail(args), ev \o c.ev, rest)
Refused(ev) == \E i \in 1..Len(ev) : ev[i][1] = 63
OptStr(decl) == Concat([i \in 1..Len(decl) |-> IF decl[i][2] THEN <<decl[i][1], 58>> ELSE <<decl[i][1]>>])
RECURSIVE SetOpts(_, _)
SetOpts(st, ev) ==
    IF ev = <<>> THEN Done(st)
    ELSE LET l == Loc(st, <<"x", ORoot>>, <<<<"k", <<"c", ev[1][1]>>>>>>)
             b == Build(l.s, IF ev[1][2] = None THEN <<"i", 1>> ELSE <<"s", ev[1][2]>>)
         IN  IF l.ok # "ok" THEN Skip(st)
             ELSE IF IsView(l.s.h, Get(l.s, l.r)) THEN Skip(st)
             ELSE LET a == Assign(b.s, l.r, b.x) IN IF a.ok # "ok" THEN Skip(st) ELSE SetOpts(a.s, Tail(ev))
ArgsLit(rest) == IF rest = <<>> THEN Nil ELSE <<"v", [i \in 1..Len(rest) |-> <<"s", rest[i]>>]>>
UsageText(o) ==
    o.name \o <<10>> \o B("Usage: ") \o o.prog \o (IF o.decl = <<>> THEN <<>> ELSE B(" -[") \o OptStr(o.decl) \o B("]"))
    \o B(" [args] (see 'man 3 getopt')") \o <<10>> \o Concat([i \in 1..Len(o.usage) |-> o.usage[i] \o <<10>>])
(* defaults that the usage shows *)
Showable(h, x) == IsNil(x) \/ (x[1] \in {"i", "l"} /\ x[2] # U /\ ~IsWide(x[1], x[2])) \/ (x[1] \in {"f", "d"} /\ x[2] # U /\ SixDigits(x[2]))
               \/ (IsStr(h, x) /\ ~HasU(h, x))
Shown(h, x) == IF IsStr(h, x) THEN Fmt(<<"s", Codes(h, x)>>, "none") ELSE Fmt(x, "none")
NoOptions(st) == [st EXCEPT !.v[ORoot] = Nil]

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
COps == {"cnew", "csec", "cfile", "clost", "cset", "cget", "ctyped", "cstr", "iread", "onew", "odecl", "oline", "oparse", "obad", "oargs", "oget", "ousage", "oloop"}
IntoVar(st, z, x) == LET a == Assign(st, <<"x", z>>, x) IN IF a.ok # "ok" THEN Skip(st) ELSE Done(a.s)
CApply(st, g, op) ==
    LET o == op[1]
        keep == [s |-> st, g |-> g, ok |-> "ok", r |-> <<>>]
        no == [keep EXCEPT !.ok = "skip"]
        thr == [keep EXCEPT !.ok = "throw"]
        with(a) == [keep EXCEPT !.s = a.s, !.ok = a.ok]
    IN  CASE o = "cnew" -> [keep EXCEPT !.g.cf[op[2]] = SecOf(op[3])]
          [] o = "csec" -> IF g.cf[op[2]] = None THEN no
                           ELSE LET a == IntoVar(st, op[4], SecMap(st, SecOf(op[3]))) IN
                                IF a.ok # "ok" THEN no ELSE [with(a) EXCEPT !.g.cf[op[2]] = SecOf(op[3])]
          [] o = "cfile" -> IF g.cf[op[2]] = None THEN no
                            ELSE LET q == Ini(op[3]) IN
                                 IF q.ok = "skip" THEN no ELSE IF q.ok = "throw" THEN thr
                                 ELSE with(SetAll(st, q.x))
          [] o = "clost" -> IF g.cf[op[2]] = None THEN no ELSE thr
          [] o = "iread" -> LET q == Ini(op[2])
                                b == Build(st, IniLit(q.x))
                            IN  IF q.ok = "skip" THEN no ELSE IF q.ok = "throw" THEN thr
                                ELSE with(IntoVar(b.s, op[3], b.x))
          [] o = "cset" -> IF g.cf[op[2]] = None THEN no
                           ELSE LET y == Operand(st, op[4])
                                    x == Get(y.s, y.r)
                                IN  IF y.ok = "throw" THEN with(y) ELSE IF y.ok # "ok" THEN no
                                    ELSE IF IsView(y.s.h, x) \/ HasU(y.s.h, x) THEN no
                                    ELSE IF g.cf[op[2]] = NilSec THEN [keep EXCEPT !.s = y.s]
                                    ELSE LET a == SetAt(y.s, g.cf[op[2]], op[3], x) IN with(a)
          [] o = "cget" -> IF g.cf[op[2]] = None THEN no
                           ELSE with(IntoVar(st, op[4], Found(st, g.cf[op[2]], op[3]).x))
          [] o = "ctyped" -> IF g.cf[op[2]] = None THEN no
                             ELSE LET f == Found(st, g.cf[op[2]], op[3])
                                      t == op[5][1]
                                      c == ToElem(st, t, f.x)
                                  IN  IF ~f.has THEN [keep EXCEPT !.r = <<"q", op[5]>>]
                                      ELSE IF IsNil(f.x) THEN no
                                      ELSE IF c.ok = "throw" THEN thr ELSE IF c.ok # "ok" \/ HasU1(t, c.x) THEN no
                                      ELSE [keep EXCEPT !.r = <<"q", <<t, c.x>>>>]
          [] o = "cstr" -> IF g.cf[op[2]] = None THEN no
                           ELSE LET f == Found(st, g.cf[op[2]], op[3]) IN
                                IF ~f.has THEN [keep EXCEPT !.r = <<"q", op[4]>>]
                                ELSE IF ~IsStr(st.h, f.x) \/ IsView(st.h, f.x) \/ HasU(st.h, f.x) THEN no
                                ELSE LET t == Codes(st.h, f.x) IN [keep EXCEPT !.r = <<"q", SubSeq(t, 1, UptoCh(t, 0, 0))>>]
          [] o = "onew" -> LET a == IntoVar(st, ORoot, Nil) IN
                           [with(a) EXCEPT !.g.op = <<[name |-> op[2], decl |-> <<>>, usage |-> <<>>, rest |-> <<>>, prog |-> None]>>]
          [] o = "odecl" -> IF g.op = <<>> THEN no
                            ELSE IF Declared(g.op[1].decl, op[2]) THEN no       \* Excluded: declared twice
                            ELSE LET y == Operand(st, op[4])
                                     x == Get(y.s, y.r)
                                     l == Loc(y.s, <<"x", ORoot>>, <<<<"k", <<"c", op[2]>>>>>>)
                                 IN  IF y.ok # "ok" THEN no
                                     ELSE IF IsView(y.s.h, x) \/ ~Showable(y.s.h, x) THEN no
                                     ELSE LET a == Assign(l.s, l.r, x)
                                              u == B(" -") \o <<op[2]>> \o B(" ") \o op[3] \o
                                                   (IF IsNil(x) THEN <<>> ELSE B(" [") \o Shown(y.s.h, x) \o B("]"))
                                          IN  [with(a) EXCEPT !.g.op[1].decl = Append(@, <<op[2], ~IsNil(x)>>), !.g.op[1].usage = Append(@, u)]
          [] o = "oline" -> IF g.op = <<>> THEN no ELSE [keep EXCEPT !.g.op[1].usage = Append(@, op[2])]
          [] o = "oparse" -> IF g.op = <<>> THEN no
                             ELSE LET q == Scan(g.op[1].decl, op[3], <<>>, <<>>)
                                      a == SetOpts(st, q.ev)
                                      b == IF a.ok # "ok" THEN a ELSE IntoVar(a.s, op[4], a.s.v[ORoot])
                                  IN  IF Refused(q.ev) \/ a.ok # "ok" \/ b.ok # "ok" THEN no
                                      ELSE [with(b) EXCEPT !.g.op[1].rest = <<q.rest>>, !.g.op[1].prog = op[2], !.r = <<"q", Len(op[3]) + 1 - Len(q.rest)>>]
          \* a command line that is refused: the usage is shown and the program ends
          [] o = "obad" -> IF g.op = <<>> THEN no
                           ELSE LET q == Scan(g.op[1].decl, op[3], <<>>, <<>>) IN
                                IF ~Refused(q.ev) THEN no
                                ELSE [keep EXCEPT !.r = <<"q", 0, UsageText([g.op[1] EXCEPT !.prog = op[2]])>>]
          [] o = "oargs" -> IF g.op = <<>> THEN no
                            ELSE IF g.op[1].rest = <<>> THEN no
                            ELSE LET b == Build(st, ArgsLit(g.op[1].rest[1])) IN with(IntoVar(b.s, op[2], b.x))
          [] o = "oget" -> IF g.op = <<>> THEN no
                           ELSE LET m == st.v[ORoot] IN
                                IF ~IsRef(m) THEN no
                                ELSE IF ~HasKey(st.h, m[2], <<"c", op[2]>>) THEN no
                                ELSE with(IntoVar(st, op[3], st.h[m[2]].e[KeyIdx(st.h, m[2], <<"c", op[2]>>) + 1][2]))
          [] o = "ousage" -> IF g.op = <<>> THEN no
                             ELSE IF g.op[1].prog = None THEN no
                             ELSE [keep EXCEPT !.r = <<"q", UsageText(g.op[1])>>]
          \* the other interface: options one at a time, given up after op[4]
          [] o = "oloop" -> LET q == Scan(op[2], op[3], <<>>, <<>>)
                                n == Len(q.ev)
                                m == IF op[4] < n THEN op[4] ELSE n
                                ev == SubSeq(q.ev, 1, m)
                                r == <<"q", [i \in 1..m |-> <<ev[i][1], IF ev[i][2] = None THEN <<-1>> ELSE ev[i][2]>>]>>
                                b == Build(st, ArgsLit(q.rest))
                                a == IntoVar(b.s, op[5], b.x)
                            IN  IF op[4] <= n THEN [keep EXCEPT !.r = r, !.g.op = <<>>, !.s = NoOptions(st)]
                                ELSE IF a.ok # "ok" THEN no
                                ELSE [with(a) EXCEPT !.r = Append(r, Len(op[3]) + 1 - Len(q.rest)), !.g.op = <<>>, !.s = NoOptions(a.s)]
=============================================================================
