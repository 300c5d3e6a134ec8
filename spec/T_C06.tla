-------------------------------- MODULE T_C06 --------------------------------
(* C06: what is indexed from a tape which has been cut off is the fold of its *)
(* complete records, possibly with the metadata of the record which is torn.  *)
EXTENDS Tape, Traces

VARIABLES t, l, bad

Tr == Traces[t]

\* How many records are complete, including the padding of their content or not
Whole(ms, b) == Cardinality({k \in 1..Len(ms) : ms[k].zb <= b})
WithData(ms, b) == Cardinality({k \in 1..Len(ms) : ms[k].eb <= b})

Attrs(x, y, r) ==
  /\ r.k = x.k /\ r.m = x.m /\ r.u = x.u /\ r.g = x.g /\ r.mt = x.mt /\ r.at = x.at /\ r.ct = x.ct
  /\ r.n = y.n

\* The entry is as the fold has it
Exact(i, r) ==
  LET e == i[r.p]
  IN /\ Attrs(e.x, e.y, r)
     /\ r.k = "f" => r.fe = "ok" /\ r.c = e.y.c /\ r.re = "ok" /\ r.rc = e.y.c

\* The entry has the metadata of the torn record, but there is no wrong content
TornEntry(i, x, r) ==
  /\ Attrs(i[r.p].x, i[r.p].y, r)
  /\ r.fe # "ok" \/ r.c = x.c
  /\ r.re # "ok" \/ r.rc = x.c

\* Entries which are neither as they were nor as the torn record x (if there is one) may have left them
Wrong(tr, c, base, x) ==
  LET rows == {tr.ents[c.rows[k]] : k \in 1..Len(c.rows)}
      ps == {r.p : r \in rows}
      with == IF x = <<>> THEN base ELSE Apply(base, x[1])
      mine == IF x = <<>> THEN {} ELSE {x[1].p}
  IN {<<"missing", p>> : p \in (DOMAIN base \ ps) \ mine}
     \cup {<<"missing torn", p>> : p \in (mine \cap DOMAIN base) \ ps}
     \cup {<<"unexpected", p>> : p \in (ps \ DOMAIN base) \ (DOMAIN with \cap mine)}
     \cup {<<"altered", r, IF r.p \in DOMAIN base THEN <<base[r.p]>> ELSE <<>> >> :
             r \in {r \in rows : ~((r.p \in DOMAIN base /\ Exact(base, r)) \/ (r.p \in mine \cap DOMAIN with /\ TornEntry(with, x[1], r)))}}

\* Restoring everything at once fails if and only if restoring one of the entries does; otherwise the files are what they are on their own
All(tr, c) ==
  LET rows == {tr.ents[c.rows[k]] : k \in 1..Len(c.rows)}
      fs == {<<r.p, r.rc>> : r \in {r \in rows : r.k = "f"}}
  IN IF <<>> \notin {r.p : r \in rows} THEN {}
     ELSE IF \E r \in rows : r.re # "ok" THEN Check(c.ae \notin {"ok", "panic"}, <<"restoring everything succeeds although an entry is torn", c.b>>)
     ELSE Check(c.ae = "ok", <<"restoring everything fails", c.ae, c.b>>)
          \cup Check({<<c.all[k].p, c.all[k].c>> : k \in 1..Len(c.all)} = fs, <<"restoring everything differs", c.b>>)

Torn(ms, n, b) == IF n < Len(ms) /\ ms[n + 1].db <= b /\ ms[n + 1].has THEN <<ms[n + 1]>> ELSE <<>>

Judge(tr, c) ==
  LET ms == tr.ms
      a == WithData(ms, c.b)
      z == Whole(ms, c.b)
      base(n) == Rebuild(SubSeq(ms, 1, n))
      wa == Wrong(tr, c, base(a), Torn(ms, a, c.b))
      wz == IF a = z THEN wa ELSE Wrong(tr, c, base(z), Torn(ms, z, c.b))
  IN Check(Cardinality({c.rows[k] : k \in 1..Len(c.rows)}) = Len(c.rows), <<"an entry is there twice">>)
     \cup (IF wa = {} \/ wz = {} THEN {} ELSE {<<"cut at", c.b, "of", tr.total, "complete", a, "differs", wa, "indexing", c.e, c.d>>})
     \cup All(tr, c)
     \cup Check(c.b < tr.total \/ c.e = "ok", <<"indexing the whole tape fails", c.d>>)
     \cup Check(c.e # "panic", <<"panic">>)

Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}

Next ==
  /\ l < Len(Tr.cuts)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judge(Tr, Tr.cuts[l'])

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
