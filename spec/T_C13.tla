-------------------------------- MODULE T_C13 --------------------------------
(* C13: what can be reached by listing is exactly what is there, and listings *)
(* agree with lookups.                                                        *)
EXTENDS RefFS, Traces

VARIABLES t, l, bad

Tr == Traces[t]

RowPaths(s) == {s.rows[i].p : i \in 1..Len(s.rows)}
RowKind(s, p) == s.rows[CHOOSE i \in 1..Len(s.rows) : s.rows[i].p = p].k
RowSize(s, p) == s.rows[CHOOSE i \in 1..Len(s.rows) : s.rows[i].p = p].n

Kids(P, d) == {Base(q) : q \in {q \in P : Len(q) = Len(d) + 1 /\ Under(d, q)}}

LimitOK(x, ch) ==
  LET ns == SeqSet(x.ns)
      want == IF x.n > 0 THEN Min(x.n, Cardinality(ch)) ELSE Cardinality(ch)
  IN /\ x.e = "ok" \/ (x.e = "eof" /\ x.n > 0 /\ ch = {})
     /\ Cardinality(ns) = Len(x.ns)
     /\ ns \subseteq ch
     /\ Len(x.ns) = want
     /\ x.fn = "ok" \/ (x.fn = "eof" /\ x.n > 0 /\ ch = {})
     /\ Cardinality(SeqSet(x.nn)) = Len(x.nn) /\ SeqSet(x.nn) \subseteq ch /\ Len(x.nn) = want

LookupOK(s, d, x) ==
  LET p == Append(d, x.n)
  IN /\ x.se = "ok" /\ x.oe = "ok"
     /\ x.sk = x.k /\ x.ok = x.k
     /\ x.k = "d" \/ (x.s = x.ss /\ x.s = x.os)
     /\ x.bn
     /\ p \in RowPaths(s) => (x.k = RowKind(s, p) /\ (x.k = "d" \/ x.s = RowSize(s, p)))

Judge(tr, s) ==
  LET P == RowPaths(s)
  IN Check(Cardinality(P) = Len(s.rows), <<"an entry exists more than once">>)
     \cup Check(s.nt = <<>>, <<"walk", s.nt>>)
     \cup Check(Sane(tr, s.v), <<"malformed tree", tr.views[s.v]>>)
     \cup Check(<<>> \in P /\ RowKind(s, <<>>) = "d", <<"no root">>)
     \cup Check(\A p \in P \ {<<>>} : Parent(p) \in P /\ RowKind(s, Parent(p)) = "d", <<"entry without a parent directory", {p \in P \ {<<>>} : Parent(p) \notin P}>>)
     \cup Check(ViewPaths(tr, s.v) = P, <<"not reachable", P \ ViewPaths(tr, s.v), "not there", ViewPaths(tr, s.v) \ P>>)
     \cup UNION {LET d == s.ls[i]
                     ch == Kids(P, d.p)
                 IN Check(\A j \in 1..Len(d.rs) : LimitOK(d.rs[j], ch), <<"listing", d.p, {d.rs[j] : j \in {j \in 1..Len(d.rs) : ~LimitOK(d.rs[j], ch)}}, "children", ch>>)
                    \cup Check(\A j \in 1..Len(d.lk) : LookupOK(s, d.p, d.lk[j]), <<"lookup beneath", d.p, {d.lk[j] : j \in {j \in 1..Len(d.lk) : ~LookupOK(s, d.p, d.lk[j])}}>>)
                 : i \in 1..Len(s.ls)}
     \cup Check({s.ls[i].p : i \in 1..Len(s.ls)} = {p \in P : RowKind(s, p) = "d"}, <<"directories which can be listed", {s.ls[i].p : i \in 1..Len(s.ls)}>>)

Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = Judge(Tr, Tr.s0)

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judge(Tr, Tr.steps[l'])

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
