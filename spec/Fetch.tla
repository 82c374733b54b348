-------------------------------- MODULE Fetch --------------------------------
(***************************************************************************)
(* Transfers: what a URL gives.                                            *)
(*                                                                         *)
(* Each of a few places holds nothing or some bytes, given one by one or   *)
(* by a rule <<number, factor, offset>>.  A place is read as a file or     *)
(* from a server on this machine; the server can break off before the      *)
(* last byte.                                                              *)
(*                                                                         *)
(* f = [at: places, in: which objects there are]                           *)
(***************************************************************************)
EXTENDS StoreStep, Text

None == <<-1000>>
F0 == [at |-> <<None, None, None>>, in |-> <<FALSE, FALSE>>]
FR(st, f, ok, r) == [s |-> st, f |-> f, ok |-> ok, r |-> r]
ByRule(p) == Len(p) = 4 /\ p[1] = -2000
Rule(n, a, b) == <<-2000, n, a, b>>
(* byte i, from 0, of a place *)
ByteAt(p, i) == IF ByRule(p) THEN ((i * p[3] + (i \div 251) + p[4]) % 256) - 128 ELSE p[i + 1]
LenAt(p) == IF ByRule(p) THEN p[2] ELSE Len(p)
BytesAt(p) == [i \in 1..LenAt(p) |-> ByteAt(p, i - 1)]

FApply(st, f, op) ==
    LET o == op[1]
        no == FR(st, f, "skip", <<>>)
        p == f.at[op[2]]
    IN
    CASE o = "uput" -> FR(st, [f EXCEPT !.at[op[2]] = op[3]], "ok", <<>>)
      [] o = "uputn" -> FR(st, [f EXCEPT !.at[op[2]] = Rule(op[3], op[4], op[5])], "ok", <<>>)
      [] o = "udel" -> FR(st, [f EXCEPT !.at[op[2]] = None], "ok", <<>>)
      [] o = "unew" -> FR(st, [f EXCEPT !.in[op[2]] = TRUE], "ok", <<>>)
      [] o = "uend" -> FR(st, [f EXCEPT !.in = <<FALSE, FALSE>>], "ok", <<>>)
      \* place, object, variable, how: a file, the server, or the server breaking off
      [] o = "uget" ->
           IF ~f.in[op[3]] THEN no
           ELSE IF op[5] = "bad" THEN FR(st, f, "throw", <<>>)
           ELSE IF p = None THEN (IF op[5] = "file" THEN FR(st, f, "throw", <<>>) ELSE no)
           ELSE IF op[5] = "part" THEN (IF LenAt(p) = 0 THEN no ELSE FR(st, f, "throw", <<>>))
           ELSE IF LenAt(p) > 120 THEN no
           ELSE LET b == Build(st, <<"s", BytesAt(p)>>)
                    c == Assign(b.s, <<"x", op[4]>>, b.x)
                IN  IF c.ok # "ok" THEN no ELSE FR(c.s, f, "ok", <<>>)
      \* the same for many bytes: how many, what kind, and where the first wrong one is
      [] o = "ubig" ->
           IF ~f.in[op[3]] \/ p = None \/ op[5] \notin {"file", "http"} THEN no
           ELSE FR(st, f, "ok", <<"q", LenAt(p), "c", -1>>)
FetchOps == {"uput", "uputn", "udel", "unew", "uend", "uget", "ubig"}
=============================================================================
