------------------------------ MODULE MC_Handle ------------------------------
(* Exhaustive model of a handle over short files; each transition is exported *)
EXTENDS Handle, TLC, Json

CONSTANTS MaxLen, Wpr, Export

VARIABLES h, d, last

Data == {<<1>>, <<2>>, <<1, 2>>}

Ops ==
  IF ~h.open
  THEN {Open(a, t, p) : a \in {"r", "w", "rw"}, t \in BOOLEAN, p \in BOOLEAN}
  ELSE {Read(n) : n \in 0..2} \cup {ReadAt(n, f) : n \in 0..2, f \in -1..3}
       \cup {Seek(f, w) : f \in -2..2, w \in 0..2}
       \cup {Write(c) : c \in Data \cup {<<>>}} \cup {WriteString(<<2>>)}
       \cup (IF h.app THEN {} ELSE {WriteAt(c, f) : c \in Data \cup {<<>>}, f \in -1..2})
       \cup {Truncate(n) : n \in -1..MaxLen} \cup {Sync, StatH, Close}

Sensible(o) == (o.op = "open" /\ o.trunc) => o.acc # "r"

Init == h = Closed /\ d = <<>> /\ last = [o |-> Close, e |-> {"ok"}, n |-> 0, b |-> <<>>]

Next ==
  \E o \in Ops :
    /\ Sensible(o)
    /\ \E r \in Step(h, d, o, Wpr) :
         /\ Len(r.h.c) <= MaxLen
         /\ r.h.cur <= MaxLen + 1
         /\ h' = r.h
         /\ d' = IF o.op = "close" /\ h.wr THEN h.c ELSE d
         /\ last' = [o |-> o, e |-> r.e, n |-> r.n, b |-> r.b]

\* What a file contains while it is open does not matter until it is closed
View == <<h, IF h.open /\ h.wr THEN <<>> ELSE d>>

vars == <<h, d, last>>

TypeOK == h.cur >= 0 /\ (h.open => h.rd \/ h.wr)

Positioned == [][last'.o.op \in {"readat", "writeat", "truncate", "stat", "sync"} => h'.cur = h.cur]_vars
ReadsKeep == [][last'.o.op \in {"read", "readat", "seek", "stat", "sync"} => h'.c = h.c]_vars
NoReadOnlyChange == [][(h.open /\ ~h.wr /\ h'.open) => h'.c = h.c]_vars
Advance == [][last'.o.op = "read" => h'.cur - h.cur = last'.n /\ last'.b = SubSeq(h.c, h.cur + 1, h'.cur)]_vars
Region ==
  [][(last'.o.op \in {"write", "writestring", "writeat"} /\ last'.e = {"ok"} /\ last'.o.c # <<>>) =>
       LET at == IF last'.o.op = "writeat" THEN last'.o.off ELSE IF h.app THEN Len(h.c) ELSE h.cur
           n == Len(last'.o.c)
       IN /\ SubSeq(h'.c, at + 1, at + n) = last'.o.c
          /\ \A i \in 1..Len(h'.c) : i <= at \/ i > at + n => h'.c[i] = IF i <= Len(h.c) THEN h.c[i] ELSE 0
          /\ Len(h'.c) = MaxOf(Len(h.c), at + n)]_vars

St(x, y) == IF x.open THEN <<x.rd, x.wr, x.app, x.c, x.cur, IF x.wr THEN <<>> ELSE y>> ELSE <<y>>
Exported == Export => PrintT(<<"EDGE", ToJson([s |-> St(h, d), o |-> last'.o, d |-> St(h', d')])>>)
==============================================================================
