------------------------------- MODULE Follow -------------------------------
(* Whether recorded calls are calls of the reference file system              *)
EXTENDS RefFS, Traces

\* Whether a recorded tree is the tree of the reference
EntMatches(x, e, now, g) ==
  /\ e.k = x.k
  /\ e.m = x.m
  /\ e.u = x.u
  /\ e.g = x.g
  /\ e.mt \in x.mt \/ (Now \in x.mt /\ e.mt \in now)
  /\ e.c = x.c
  /\ e.n = Len(x.c) * g

Matches(x, tr, v, now) ==
  /\ ViewPaths(tr, v) = DOMAIN x
  /\ \A id \in ViewIds(tr, v) : EntMatches(x[tr.ents[id].p], tr.ents[id], now, tr.g)

Differing(x, tr, v, now) ==
  (DOMAIN x \ ViewPaths(tr, v)) \cup (ViewPaths(tr, v) \ DOMAIN x)
  \cup {tr.ents[id].p : id \in {i \in ViewIds(tr, v) : tr.ents[i].p \in DOMAIN x /\ ~EntMatches(x[tr.ents[i].p], tr.ents[i], now, tr.g)}}

\* The result which a successful call reports besides its class
ResultOK(x, s, g) ==
  LET o == s.o IN
  CASE o.op = "read" /\ s.e = "ok" -> s.x.rc = x[o.p].c
    [] o.op = "stat" /\ s.e = "ok" -> s.x.sk = x[o.p].k /\ (x[o.p].k = "d" \/ s.x.sn = Len(x[o.p].c) * g)
    [] o.op = "list" /\ s.e = "ok" ->
         LET ch == {Base(q) : q \in Children(x, o.p)}
         IN /\ Cardinality(SeqSet(s.x.ln)) = Len(s.x.ln)
            /\ SeqSet(s.x.ln) \subseteq ch
            /\ Len(s.x.ln) = IF o.n > 0 THEN Min(o.n, Cardinality(ch)) ELSE Cardinality(ch)
    [] o.op = "chtimes" /\ s.e = "ok" -> TRUE
    [] OTHER -> TRUE

\* Listing at most n entries of a directory without any may report its end
Classes(x, r, o) ==
  IF o.op = "list" /\ o.n > 0 /\ IsDir(x, o.p) /\ Children(x, o.p) = {} THEN r.e \cup {"eof"} ELSE r.e

\* Everything which a call has nothing to do with is exactly as it was
FrameOK(tr, pv, s) ==
  {id \in ViewIds(tr, pv) : \A q \in Scope(s.o) : ~Within(q, tr.ents[id].p)} \subseteq ViewIds(tr, s.v)

\* The access time is what it has been set to
AtimeOK(tr, s) ==
  (s.o.op = "chtimes" /\ s.e = "ok") => EntAt(tr, s.v, s.o.p).at = s.o.t + 1

Judge(x, tr, pv, s) ==
  LET now == SeqSet(s.now)
      rs == {r \in Do(x, tr.own, s.o) : s.e \in Classes(x, r, s.o) /\ s.ew \in r.ew}
  IN IF rs = {} THEN {<<"result", s.o.op, s.e, s.ew, "expected", {<<Classes(x, r, s.o), r.ew>> : r \in Do(x, tr.own, s.o)}>>}
     ELSE Check(s.ec = "ok", <<"close", s.o.op, s.ec>>)
          \cup Check(s.nt = <<>>, <<"walk", s.nt>>)
          \cup (IF ~Sane(tr, s.v) THEN {<<"tree", "malformed">>}
                ELSE IF ~\E r \in rs : Matches(r.t, tr, s.v, now)
                     THEN {<<"tree", s.o.op, "differs at", Differing((CHOOSE r \in rs : TRUE).t, tr, s.v, now)>>}
                ELSE Check(FrameOK(tr, pv, s), <<"frame", s.o.op>>) \cup Check(AtimeOK(tr, s), <<"atime", s.o.op>>)
                     \cup Check(ResultOK(x, s, tr.g), <<"value", s.o.op>>))
=============================================================================
