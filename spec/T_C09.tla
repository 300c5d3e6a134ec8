------------------------------- MODULE T_C09 --------------------------------
(* C09: each member on the tape of recorded histories is wrapped, no secret  *)
(* is found in the tape in any form, and nobody else can do anything with it *)
EXTENDS Traces, Crypto

VARIABLES t, l, bad

Tr == Traces[t]

\* What is encrypted for the owner in the format which has been asked for, or not there at all, says nothing; otherwise it says what it is
Of(tr, how, what) == IF how = tr.enc THEN Enc(Own, Plain({what})) ELSE IF how = "none" THEN Plain({}) ELSE Plain({what, how})

Term(tr, m) == [outer |-> SeqSet(m.outer), hdr |-> Of(tr, m.emb, "header"), data |-> IF m.torn THEN Plain({}) ELSE Of(tr, m.data, "content")]

Member(tr, m) ==
  LET x == Term(tr, m) IN
  Check(Visible(x, {}) \subseteq Wrapper, <<"visible", Visible(x, {}) \ Wrapper>>)
  \cup Check(m.torn \/ (Opens(x.hdr, {Own}) /\ ~Opens(x.hdr, {Mal})), <<"the header is not encrypted for the owner">>)
  \cup Check(m.torn \/ (m.has => x.data.t = "enc"), <<"the content is not encrypted for the owner">>)
  \cup Check(m.torn \/ m.opened, <<"the owner can not open it">>)
  \cup Check(~m.again, <<"the same has been written before">>)

Step(tr, s) ==
  UNION {LET b == Member(tr, s.recs[k]) IN IF b = {} THEN {} ELSE {<<s.recs[k].act, s.recs[k].kind, b>>} : k \in 1..Len(s.recs)}
  \cup Check(s.found = <<>>, <<"found on the tape", SeqSet(s.found)>>)

End(tr) ==
  Check(tr.found = <<>>, <<"found on the tape or by somebody else", SeqSet(tr.found)>>)
  \cup UNION {Check(x.bad = <<>>, <<"succeeds with", x.who, SeqSet(x.bad)>>) : x \in SeqSet(tr.strangers)}
  \cup Check(tr.owner = "ok" /\ tr.rows > 0, <<"the owner can not rebuild the index", tr.owner>>)

Judged(tr, k) ==
  IF k > Len(tr.steps) THEN End(tr)
  ELSE LET b == Step(tr, tr.steps[k]) IN IF b = {} THEN {} ELSE {<<tr.steps[k].o.op, b>>}

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = Judged(Tr, 1)

Next ==
  /\ l < Len(Tr.steps) + 1
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ bad' = Judged(Tr, l')

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
