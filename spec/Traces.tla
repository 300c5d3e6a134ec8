------------------------------- MODULE Traces -------------------------------
(* Traces recorded from the real code: one JSON object per line, with interned *)
(* entries (ents) and trees (views, which are sequences of entries).           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* The entries of a recorded tree
Ent(tr, id) == tr.ents[id]
ViewIds(tr, v) == {tr.views[v][i] : i \in 1..Len(tr.views[v])}
ViewPaths(tr, v) == {tr.ents[id].p : id \in ViewIds(tr, v)}

\* No entry has been listed twice
NoDuplicates(tr, v) == Cardinality(ViewPaths(tr, v)) = Len(tr.views[v])

\* The recorded entry at a path of a tree without duplicates
EntAt(tr, v, p) == tr.ents[CHOOSE id \in ViewIds(tr, v) : tr.ents[id].p = p]

Known(e) == e.k \in {"d", "f"}

\* The tree of the reference which a recorded tree represents
ToTree(tr, v) ==
  [p \in ViewPaths(tr, v) |->
     LET e == EntAt(tr, v, p)
     IN [k |-> e.k, m |-> e.m, u |-> e.u, g |-> e.g, mt |-> {e.mt}, c |-> e.c]]

Sane(tr, v) == NoDuplicates(tr, v) /\ \A id \in ViewIds(tr, v) : Known(tr.ents[id])

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Min(a, b) == IF a < b THEN a ELSE b

\* A set with one message if the condition does not hold
Check(cond, msg) == IF cond THEN {} ELSE {msg}
=============================================================================
