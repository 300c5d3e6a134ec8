------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* Signed and encrypted records as terms, who can make and read them, and  *)
(* what an indexer and a restore make of them.                             *)
(*                                                                         *)
(* A header is [id, what, cs]: id is the record of the owner which it is,  *)
(* or is derived from; what has been changed ("" if it is the owner's);    *)
(* cs is the signature of the content which it carries. A record on the    *)
(* tape is [emb, sig, data]: the embedded header, the signature of that    *)
(* and the content. Signatures are [k, m]: whose key signed which message. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nothing == [t |-> "none"]
Own == "own"
Mal == "mallory"

Content(i) == [t |-> "content", i |-> i]
Forged == [t |-> "content", i |-> 0]
Empty == [t |-> "content", i |-> -1]
CutOff(i) == [t |-> "cut", i |-> i]
Sig(k, m) == [t |-> "sig", k |-> k, m |-> m]
Bad(v) == [t |-> "bad", v |-> v]

\* Headers are messages, too
Header(id, what, cs) == [t |-> "hdr", id |-> id, what |-> what, cs |-> cs]

\* The records of the owner: 1..n carry contents, others do not
Legit(i, n) == Header(i, "", IF i <= n THEN Sig(Own, Content(i)) ELSE Nothing)
Owners(i, n) == [emb |-> Legit(i, n), sig |-> Sig(Own, Legit(i, n)), data |-> IF i <= n THEN Content(i) ELSE Empty]

---------------------------------------------------------------------------
(* What is accepted                                                        *)

\* Flaws are: "missing", "malformed", "anykey", "content"; none of them for what is specified
Accepts(rec, flaws) ==
  /\ rec.emb # Nothing
  /\ \/ rec.sig = Sig(Own, rec.emb)
     \/ "missing" \in flaws /\ rec.sig = Nothing
     \/ "malformed" \in flaws /\ rec.sig.t = "bad"
     \/ "anykey" \in flaws /\ rec.sig = Sig(Mal, rec.emb)

\* What is restored from a record, or nothing if that fails
Restored(rec, flaws) ==
  IF ~Accepts(rec, flaws) THEN Nothing
  ELSE IF rec.emb.cs = Sig(Own, rec.data) \/ "content" \in flaws THEN rec.data
  ELSE Nothing

RECURSIVE Indexed(_, _, _)
\* The headers which the indexer accepts: it stops at the first record which it does not
Indexed(tape, i, flaws) ==
  IF i > Len(tape) \/ ~Accepts(tape[i], flaws) THEN <<>>
  ELSE <<tape[i].emb>> \o Indexed(tape, i + 1, flaws)

---------------------------------------------------------------------------
(* What somebody else may do to a tape of n files and other records. A     *)
(* change names terms: c = [emb, sig, data, at]                            *)

Tape0(n, all) == [i \in 1..all |-> Owners(i, n)]

Emb(e, n) ==
  CASE e.k = "legit" -> Legit(e.i, n)
    [] e.k = "none" -> Nothing
    [] OTHER -> Header(e.i, e.what, CASE e.what = "csnone" -> Nothing
                                      [] e.what = "csother" -> Sig(Own, Content((e.i % n) + 1))
                                      [] e.what = "csmal" -> Sig(Mal, Forged)
                                      [] e.what = "csbad" -> Bad(1)
                                      [] OTHER -> Legit(e.i, n).cs)
\* If contents and headers can not be told apart, the last content of the owner is the forged header itself
SigOf(s, emb, n, headerlike) ==
  CASE s.k = "hdr" -> Sig(Own, Legit(s.i, n))
    [] s.k = "content" -> IF headerlike /\ s.i = n /\ emb # Nothing THEN Sig(Own, emb) ELSE Sig(Own, Content(s.i))
    [] s.k = "mal" -> Sig(Mal, emb)
    [] s.k = "none" -> Nothing
    [] s.k = "bad" -> Bad(s.i)
DataOf(d) ==
  CASE d.k = "content" -> Content(d.i)
    [] d.k = "cut" -> CutOff(d.i)
    [] d.k = "forged" -> Forged
    [] d.k = "empty" -> Empty

Made(c, n, headerlike) == LET e == Emb(c.emb, n) IN [emb |-> e, sig |-> SigOf(c.sig, e, n, headerlike), data |-> DataOf(c.data)]

PutRecord(tp, at, rec) ==
  CASE at.k = "replace" -> [tp EXCEPT ![at.i] = rec]
    [] at.k = "insert" -> SubSeq(tp, 1, at.i - 1) \o <<rec>> \o SubSeq(tp, at.i, Len(tp))
    [] at.k = "append" -> Append(tp, rec)

---------------------------------------------------------------------------
(* What is visible                                                         *)

\* Encrypted for somebody, and everything that somebody without a key learns from a term: secrets are strings
Enc(k, x) == [t |-> "enc", k |-> k, x |-> x]
Plain(s) == [t |-> "plain", s |-> s]
Learns(x, ks) == CASE x.t = "plain" -> x.s
                   [] x.t = "enc" -> IF x.k \in ks THEN x.x.s ELSE {}
                   [] OTHER -> {}
\* Whether somebody can get at it at all
Opens(x, ks) == x.t = "plain" \/ (x.t = "enc" /\ x.k \in ks)
\* What everybody may learn
Wrapper == {"size", "wrapper"}
\* What is on the tape of a record: the wrapper, the header and the content
Wrapped(enc, secrets, data) ==
  IF enc THEN [outer |-> Wrapper, hdr |-> Enc(Own, Plain(secrets)), data |-> IF data = {} THEN Plain({}) ELSE Enc(Own, Plain(data))]
  ELSE [outer |-> {"size"} \cup secrets, hdr |-> Plain({}), data |-> Plain(data)]
Visible(rec, ks) == rec.outer \cup Learns(rec.hdr, ks) \cup Learns(rec.data, ks)
=============================================================================
