-------------------------------- MODULE T_C11 --------------------------------
(* C11: the calls which clients made at the same time have the outcomes of    *)
(* some order of them which respects their real-time order. The invocations   *)
(* and returns are followed in real time; confs are all configurations which  *)
(* are possible so far - tree, open files, and which of the calls in progress *)
(* have already taken effect. Each of them has to by the time it returns.     *)
EXTENDS Conc, Follow

VARIABLES t, l, confs, pend, bad

\* With more configurations than this the order of the calls of a trace is given up, and printed to be counted: nothing is claimed of it
Limit == 4000

Tr == Traces[t]

Fits(tr, cf, j) == Fit(cf.x, cf.hs[tr.calls[j].c], tr.calls[j], tr.own, tr.g)

\* Lets those of the calls js take effect for which it does not matter when they do. Each client has one call in progress at most.
Settle(tr, cf, js) ==
  LET pick(j) == Fits(tr, cf, j)
      S == {j \in js \ cf.done : Harmless(cf.hs[tr.calls[j].c], tr.calls[j]) /\ pick(j) # {}}
  IN IF S = {} THEN cf
     ELSE [x |-> cf.x, done |-> cf.done \cup S,
           hs |-> [c \in DOMAIN cf.hs |->
                     IF \E j \in S : tr.calls[j].c = c THEN (CHOOSE f \in pick(CHOOSE j \in S : tr.calls[j].c = c) : TRUE).h ELSE cf.hs[c]]]

\* Everything a pending call j can do in a configuration
Ext(tr, cf, j, js) ==
  LET s == tr.calls[j]
  IN {Settle(tr, [x |-> f.t, hs |-> [cf.hs EXCEPT ![s.c] = f.h], done |-> cf.done \cup {j}], js) : f \in Fits(tr, cf, j)}

\* Those of the calls js which can be next. Of calls which are the same, the one which returns first comes first.
Choices(tr, cf, js) ==
  {j \in js \ cf.done :
     \A i \in js \ cf.done : /\ SameCall(tr.calls[i], tr.calls[j])
                             /\ cf.hs[tr.calls[i].c] = cf.hs[tr.calls[j].c]
                            => tr.calls[j].ret <= tr.calls[i].ret}

RECURSIVE Grow(_, _, _, _, _)
\* Lets calls in progress take effect until k has
Grow(tr, S, front, js, k) ==
  LET new == UNION {UNION {Ext(tr, cf, j, js) : j \in Choices(tr, cf, js)} : cf \in {c \in front : k \notin c.done}} \ S
  IN IF new = {} \/ Cardinality(S) > Limit THEN S ELSE Grow(tr, S \cup new, new, js, k)

\* The calls among js which the effect of the calls ks may depend on
RECURSIVE Related(_, _, _)
Related(tr, ks, js) ==
  LET more == {j \in js \ ks : \E k \in ks : Conflict(tr.calls[j], tr.calls[k])}
  IN IF more = {} THEN ks ELSE Related(tr, ks \cup more, js)

GivenUp == [x |-> <<>>, hs |-> <<>>, done |-> {}]

\* The configurations after call k has returned. Calls take effect as late as possible: only when a call returns, together with
\* those on which it may depend.
Return(tr, S, p, k) ==
  LET G == Grow(tr, S, S, Related(tr, {k}, p), k)
  IN IF Cardinality(G) > Limit THEN {GivenUp} ELSE {[cf EXCEPT !.done = @ \ {k}] : cf \in {c \in G : k \in c.done}}

Reproducible(tr) ==
  LET s == tr.fin IN
  Check(s.nt = <<>>, <<"walk", s.nt>>)
  \cup Check(s.re = "ok" /\ s.oe = "ok", <<"rebuilding or reopening fails", s.re, s.oe>>)
  \cup Check(s.vr = s.v /\ s.vo \in {0, s.v}, <<"rebuilt or reopened tree differs">>)

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 0
  /\ pend = {}
  /\ bad = Check(Sane(Tr, Tr.v0) /\ Tr.n0 = <<>>, <<"tree", "malformed at the start">>)
  /\ confs = IF bad = {} THEN {[x |-> ToTree(Tr, Tr.v0), hs |-> [c \in 1..Tr.n |-> NoFile], done |-> {}]} ELSE {}

Next ==
  /\ l < Len(Tr.evs) + 1
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ IF l' = Len(Tr.evs) + 1
     THEN /\ UNCHANGED <<confs, pend>>
          /\ bad' = Reproducible(Tr)
                    \cup (IF ~Sane(Tr, Tr.fin.v) THEN {<<"tree", "malformed at the end">>}
                          ELSE IF \E cf \in confs : Len(cf.hs) = 0 THEN IF PrintT(<<"GAVEUP", ToJson(t)>>) THEN {} ELSE {}
                          ELSE Check(\E cf \in confs : Matches(cf.x, Tr, Tr.fin.v, SeqSet(Tr.now)),
                                     <<"final tree", {Differing(cf.x, Tr, Tr.fin.v, SeqSet(Tr.now)) : cf \in confs}>>))
     ELSE IF \E cf \in confs : Len(cf.hs) = 0 THEN UNCHANGED <<confs, pend, bad>>
     ELSE LET e == Tr.evs[l']
              s == Tr.calls[e.k]
          IN IF e.e = "i"
             THEN /\ pend' = pend \cup {e.k}
                  /\ confs' = {Settle(Tr, cf, {e.k}) : cf \in confs}
                  /\ UNCHANGED bad
             ELSE /\ pend' = pend \ {e.k}
                  /\ confs' = Return(Tr, confs, pend, e.k)
                  /\ bad' = IF confs' = {} THEN {<<"no order explains", s.op, s, "among", {<<Tr.calls[j].c, Tr.calls[j].op, Tr.calls[j].o.p, Tr.calls[j].e>> : j \in pend}>>} ELSE {}

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
