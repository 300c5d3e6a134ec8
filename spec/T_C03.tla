-------------------------------- MODULE T_C03 --------------------------------
(* C03: what has been written is what is read, in all ways to read; the size *)
(* is the length of the content.                                             *)
EXTENDS Traces, Pipe

VARIABLES t, l, store, bad

Tr == Traces[t]

Sizes == {"stat", "row", "list", "re.stat", "re.row", "re.list", "op.stat"}
Contents == {"fs", "chunks", "at", "fetch", "restore", "re.fs", "re.chunks", "re.at", "re.fetch", "op.fs"}
Always == {"fs", "stat", "restore"}

\* What a step leaves: contents are numbers here, as encoded contents are decoded
Put(s, items) == [p \in DOMAIN s \cup {i.p : i \in SeqSet(items)} |->
                    IF \E i \in SeqSet(items) : i.p = p
                    THEN LET i == CHOOSE i \in SeqSet(items) : i.p = p
                         IN LET rec == Record(Tr.cfg, <<"n">>, IF i.n = 0 THEN <<>> ELSE <<i.id>>, 1)
                            IN [x |-> Reading(Tr.cfg, rec), n |-> i.n]
                    ELSE s[p]]

Expected(s, p, e) == IF e.via \in Sizes THEN e.id = s[p].n
                     ELSE /\ e.via \in Contents
                          /\ e.id = IF s[p].x = <<>> THEN Tr.empty ELSE s[p].x[1]

Vias(st, p) == {e.via : e \in {e \in SeqSet(st.reads) : e.p = p}}
Wanted(n) == IF n = Len(Tr.steps) THEN Sizes \cup Contents ELSE Always

After(s, st, n) ==
  IF st.e # "ok" THEN {<<"writing fails", st.how, st.d>>}
  ELSE {<<"reading fails", e.via, e.p, e.e, e.d>> : e \in {e \in SeqSet(st.reads) : e.e # "ok"}}
       \cup {<<"not what has been written", st.how, e.via, e.p, e.id, s[e.p]>> : e \in {e \in SeqSet(st.reads) : e.e = "ok" /\ ~Expected(s, e.p, e)}}
       \cup UNION {Check(Wanted(n) \subseteq Vias(st, p), <<"not read", p, Wanted(n) \ Vias(st, p)>>) : p \in DOMAIN s}

Init == t \in 1..Len(Traces) /\ l = 0 /\ store = <<>> /\ bad = Check(Supported(Tr.cfg), <<"not supported">>)

Next ==
  /\ l < Len(Tr.steps)
  /\ bad = {}
  /\ l' = l + 1
  /\ t' = t
  /\ store' = Put(store, Tr.steps[l'].items)
  /\ bad' = After(store', Tr.steps[l'], l')

View == <<t, l, bad>>
Held == bad = {}
==============================================================================
