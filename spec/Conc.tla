-------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* Clients which use one file system at the same time: what each single    *)
(* call means if the calls take effect one after the other. Open files are *)
(* private to a client; what has been written to one becomes visible when  *)
(* it is synced or closed, under the path with which it has been opened.   *)
(***************************************************************************)
EXTENDS RefFS

NoFile == [p |-> <<>>, wr |-> FALSE, app |-> FALSE, tr |-> FALSE, ld |-> FALSE, buf |-> <<>>, cur |-> 0, dirty |-> FALSE]

OpenedFile(o) == [NoFile EXCEPT !.p = o.p, !.wr = CanWrite(o), !.app = o.app, !.tr = o.trunc /\ CanWrite(o)]

\* Content becomes private to the client with the first access
Load(x, h) ==
  IF h.ld THEN h
  ELSE IF h.tr THEN [h EXCEPT !.ld = TRUE, !.tr = FALSE, !.buf = <<>>, !.dirty = x[h.p].c # <<>>]
  ELSE [h EXCEPT !.ld = TRUE, !.buf = x[h.p].c]

Accessible(x, h) == h.ld \/ IsFile(x, h.p)

Same(x, h) == [t |-> x, h |-> h]

\* What writing back does; h has been loaded if it is dirty
Flush(x, h) ==
  IF h.dirty THEN Same([x EXCEPT ![h.p].c = h.buf, ![h.p].mt = @ \cup {Now}], [h EXCEPT !.dirty = FALSE]) ELSE Same(x, h)

\* The outcomes of a recorded call s which fit to what has been recorded: trees and open files after it
Fit(x, h, s, own, g) ==
  LET o == s.o
      any(r) == IF s.e \in r THEN {Same(x, h)} ELSE {}
  IN CASE s.op = "hopen" ->
            {[t |-> IF Has(x, o.p) THEN x ELSE r.t, h |-> IF s.e = "ok" THEN OpenedFile(o) ELSE NoFile] :
               r \in {q \in DoOpen(x, own, [o EXCEPT !.trunc = FALSE, !.c = <<>>]) : s.e \in q.e}}
       [] s.op = "hread" ->
            IF ~Accessible(x, h) THEN (IF s.e # "ok" THEN {Same(x, h)} ELSE {})
            ELSE LET h2 == Load(x, h)
                 IN IF s.e = "ok" /\ s.rc = h2.buf THEN {Same(x, [h2 EXCEPT !.cur = Len(h2.buf)])} ELSE {}
       [] s.op = "hwrite" ->
            IF ~Accessible(x, h) THEN (IF s.e # "ok" THEN {Same(x, h)} ELSE {})
            ELSE LET h2 == Load(x, h)
                     at == IF h.app THEN Len(h2.buf) ELSE h2.cur
                     new == SubSeq(h2.buf, 1, at) \o o.c \o SubSeq(h2.buf, at + Len(o.c) + 1, Len(h2.buf))
                 IN IF s.e = "ok" THEN {Same(x, [h2 EXCEPT !.buf = new, !.cur = at + Len(o.c), !.dirty = TRUE])} ELSE {}
       [] s.op \in {"hsync", "hclose"} ->
            LET after(h2) == IF s.op = "hclose" THEN NoFile ELSE h2
            IN IF h.wr /\ (h.tr \/ h.dirty) /\ ~IsFile(x, h.p)
               THEN {Same(x, after(h))} \* The file is gone, so there is nothing to write to
               ELSE LET f == Flush(x, IF h.wr /\ h.tr THEN Load(x, h) ELSE h)
                    IN IF s.e = "ok" THEN {[t |-> f.t, h |-> after(f.h)]} ELSE {}
       [] s.op = "hstat" -> {Same(x, h)}
       [] s.op = "hlist" ->
            IF ~IsDir(x, h.p) THEN {Same(x, h)}
            ELSE IF /\ s.e = "ok"
                    /\ Len(s.ln) = Cardinality(Children(x, h.p))
                    /\ {s.ln[i] : i \in 1..Len(s.ln)} = {Base(q) : q \in Children(x, h.p)}
                 THEN {Same(x, h)} ELSE {}
       [] s.op = "stat" ->
            {[t |-> r.t, h |-> h] : r \in {q \in DoStat(x, o) : s.e \in q.e /\ (s.e = "ok" => s.sk = x[o.p].k /\ (s.sk = "d" \/ s.sn = Len(x[o.p].c) * g))}}
       [] OTHER -> {[t |-> r.t, h |-> h] : r \in {q \in Do(x, own, o) : s.e \in q.e}}

\* Whether call s, with the outcome that has been recorded, changes no tree at all, and does the same to h in all trees it fits to.
\* If such a call in progress can take effect now, nothing is lost by letting it.
Harmless(h, s) ==
  \/ s.op \in {"hread", "hstat", "hlist", "stat"}
  \/ s.op = "hwrite" /\ (h.ld \/ s.e # "ok")
  \/ s.op = "hopen" /\ (s.e # "ok" \/ ~s.o.creat)
  \/ s.op = "hclose" /\ ~h.wr
  \/ s.op \notin {"hopen", "hclose", "hsync"} /\ s.e # "ok"

\* The paths which a call depends on or changes; what is beneath and above them belongs to them, too
Touched(s) ==
  CASE s.op = "rename" -> {s.o.p, s.o.q}
    [] s.op = "mkdirall" -> Prefixes(s.o.p) \ {Root}
    [] OTHER -> {s.o.p}

\* Calls of different clients which are not in conflict have the same effects in both orders
Conflict(s1, s2) == \E p \in Touched(s1), q \in Touched(s2) : Within(p, q) \/ Within(q, p)

\* Calls of different clients which do the same in all trees if they have the same open file
SameCall(s1, s2) == s1.op = s2.op /\ s1.e = s2.e /\ s1.o = s2.o /\ s1.rc = s2.rc
==============================================================================
