-------------------------------- MODULE T_C05 --------------------------------
(* C05: the tape only grows, by whole blocks of well-formed archives, and not *)
(* at all if a call has failed.                                               *)
EXTENDS Tape, Traces

VARIABLES t, l, idx, end, bad

Tr == Traces[t]

\* The data of a record which has no encoding is the content of the entry
Plain(tr, s, i) ==
  IF ~tr.plain THEN {}
  ELSE UNION {LET p == tr.ents[id].p
              IN Check(p \in DOMAIN i /\ i[p].y.raw = tr.ents[id].c, <<"data of", p, IF p \in DOMAIN i THEN i[p].y.raw ELSE <<"none">>, "file", tr.ents[id].c>>)
              : id \in {k \in ViewIds(tr, s.v) : tr.ents[k].k = "f"}}

\* What other readers of archives (Python's tarfile and GNU tar) find on the final tape is what the scan has found
RECURSIVE Offsets(_, _)
Offsets(tr, n) == IF n = 0 THEN [i \in 1..Len(tr.s0.ms) |-> tr.s0.ms[i].o]
                  ELSE Offsets(tr, n - 1) \o [i \in 1..Len(tr.steps[n].ms) |-> tr.steps[n].ms[i].o]
Others(tr, n) ==
  IF n < Len(tr.steps) THEN {}
  ELSE Check(tr.py = Offsets(tr, n), <<"another reader found", tr.py, "instead of", Offsets(tr, n)>>)
       \cup Check(tr.gnu = Len(Offsets(tr, n)), <<"GNU tar found", tr.gnu, "instead of", Len(Offsets(tr, n))>>)

\* Archives begin at the start of the tape or behind the zeros which end the one before: at least two blocks of them, at most up to the end of a record
Most(tr) == 2 + (IF tr.rs > 20 THEN tr.rs ELSE 20)
EndOf(e, ms) == IF ms = <<>> THEN e ELSE ms[Len(ms)].nb
Ends(tr, e, s) ==
  LET before(k) == IF k = 1 THEN e ELSE s.ms[k - 1].nb
      gap(k) == s.ms[k].o - before(k)
      rest == s.tp.len \div 512 - EndOf(e, s.ms)
  IN Check(\A k \in 1..Len(s.ms) : gap(k) = 0 \/ (before(k) > 0 /\ gap(k) \in 2..Most(tr)), <<"no archive at", {s.ms[k].o : k \in {j \in 1..Len(s.ms) : gap(j) # 0}}, "behind", e>>)
     \cup Check(rest \in 2..Most(tr), <<"the last archive ends with", rest, "blocks of zeros">>)

Judge(tr, s, i) ==
  Check(s.tp.keep = s.tp.old, <<"not append-only: changed at byte", s.tp.keep, "of", s.tp.old>>)
  \cup Check(s.tp.len % 512 = 0, <<"no whole number of blocks", s.tp.len>>)
  \cup Check(s.mal = <<>>, <<"blocks which are part of no member", s.mal>>)
  \cup Check(\A k \in 1..Len(s.ms) : ~s.ms[k].cut /\ s.ms[k].err = "ok", <<"malformed record", s.ms>>)
  \cup Plain(tr, s, i)

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 0
  /\ idx = IF \A k \in 1..Len(Tr.s0.ms) : Tr.s0.ms[k].err = "ok" THEN Rebuild(Tr.s0.ms) ELSE NoIndex
  /\ end = EndOf(0, Tr.s0.ms)
  /\ bad = Judge(Tr, Tr.s0, idx) \cup Ends(Tr, 0, Tr.s0)

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ LET s == Tr.steps[l']
     IN /\ idx' = IF \A k \in 1..Len(s.ms) : s.ms[k].err = "ok" THEN FoldAll(idx, s.ms) ELSE idx
        /\ end' = EndOf(end, s.ms)
        /\ bad' = Judge(Tr, s, idx')
                  \cup Ends(Tr, end, s)
                  \cup Check(s.e = "ok" \/ s.tp.len = s.tp.old, <<"failed call appended", s.o.op, s.e, s.tp>>)
                  \cup Others(Tr, l')
                  \cup Check(s.o.op \notin {"read", "stat", "list"} \/ s.tp.len = s.tp.old, <<"reading appended", s.o.op, s.tp>>)

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
