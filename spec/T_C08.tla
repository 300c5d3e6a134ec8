-------------------------------- MODULE T_C08 --------------------------------
(* C08: what is accepted of a tape which has been changed are headers of the  *)
(* owner, and what is restored are the contents which belong to them. Step 1  *)
(* is the untouched tape, then come changes, then bytes.                      *)
EXTENDS Traces, Crypto

VARIABLES t, l, bad

Tr == Traces[t]

\* Records which the specification does not talk about are the owner's, and numbered from 100
Foreign(i) == i < 100

\* Signatures which are malformed beyond doubt; the others are the owner's, with bits which may be insignificant
Malformed == {0, 1, 2, 5, 6, 8, 9, 10}

Judge(o, ids, conts) ==
  Check(\A i \in SeqSet(o.acc) : Foreign(i) => i \in ids, <<"accepts", {i \in SeqSet(o.acc) : Foreign(i) /\ i \notin ids}, o.odd>>)
  \cup Check(\A i \in SeqSet(o.qry) : Foreign(i) => i \in ids, <<"queries", {i \in SeqSet(o.qry) : Foreign(i) /\ i \notin ids}, o.odd>>)
  \cup Check(o.calls = <<>>, <<"indexes", o.calls>>)
  \cup Check(\A f \in SeqSet(o.fet) : f[1] = f[2] /\ (Foreign(f[1]) => f[1] \in conts), <<"restores", {f \in SeqSet(o.fet) : ~(f[1] = f[2] /\ (Foreign(f[1]) => f[1] \in conts))}, o.odd>>)

\* Of the untouched tape, everything is accepted
Base(tr) ==
  Judge(tr.base, 1..(tr.files + tr.others), 1..(tr.files + tr.others))
  \cup Check(Len(tr.base.acc) = tr.n /\ tr.base.e = "ok" /\ Len(tr.base.qry) = tr.n /\ tr.base.qe = "ok", <<"rejects what the owner has signed", tr.base>>)
  \cup Check(1..tr.files \subseteq {f[1] : f \in SeqSet(tr.base.fet)}, <<"does not restore what the owner has signed", tr.base.fet>>)

\* What may be accepted and restored after a change
After(tr, x) ==
  LET c == x.c
      rec == Made(c, tr.files, FALSE)
      tp == PutRecord(Tape0(tr.files, tr.files + tr.others), c.at, rec)
      valid == {k \in 1..Len(tp) : Accepts(tp[k], {})}
      \* Bits of the owner's signature have changed
      maybe == IF c.sig.k = "bad" /\ c.sig.i \notin Malformed /\ c.emb.k = "legit" THEN {c.emb.i} ELSE {}
      ids == {tp[k].emb.id : k \in valid} \cup maybe
      \* Others than the first ones have no contents which have been signed
      conts == {i \in 1..tr.files : \E k \in valid : tp[k].emb.id = i /\ Restored(tp[k], {}) = Content(i)} \cup (maybe \cap (IF c.data.k = "content" THEN {c.data.i} ELSE {}))
               \cup (tr.files + 1)..(tr.files + tr.others)
  IN Judge(x.o, ids, conts)

All(tr) == 1..(tr.files + tr.others)

Judged(tr, k) ==
  IF k = 0 THEN Base(tr)
  ELSE IF k <= Len(tr.chs) THEN LET b == After(tr, tr.chs[k]) IN IF b = {} THEN {} ELSE {<<tr.chs[k].c, b>>}
  ELSE LET f == tr.flips[k - Len(tr.chs)] b == Judge(f.o, All(tr), All(tr)) IN IF b = {} THEN {} ELSE {<<"byte", f.at, b>>}

Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = Judged(Tr, 0)

Next ==
  /\ l < Len(Tr.chs) + Len(Tr.flips)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judged(Tr, l')

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
