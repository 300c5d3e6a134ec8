------------------------------ MODULE Gen_Handle ------------------------------
(* Generates sequences of calls on up to two open files                         *)
EXTENDS Handle, TLC, Json

CONSTANTS Steps, MaxLen,
  RO \* Files are only read (attempts to write are part of it); what they contain is printed with the calls

VARIABLES hs, ds, hist

Rnd(S) == RandomElement(S)
Data(k, mx) == LET n == Rnd(0..mx) IN [i \in 1..n |-> ((k * 7 + i * 3) % 250) + 1]

Kinds == <<"read", "read", "read", "readat", "readat", "seek", "seek", "seek", "write", "write", "write", "writestring", "writeat", "writeat",
           "truncate", "sync", "stat", "close">>

\* x and y are dice
Draw(h, k, kind, x, y) ==
  LET off == IF x < 70 THEN Rnd(0..MaxOf(Len(h.c), 1)) ELSE IF x < 90 THEN Len(h.c) + Rnd(0..3) ELSE -Rnd(1..3)
      n == IF y < 60 THEN Rnd(1..4) ELSE IF y < 90 THEN Rnd(1..MaxLen) ELSE 0
  IN CASE kind = "read" -> Read(n)
       [] kind = "readat" -> ReadAt(n, off)
       [] kind = "seek" ->
            LET w == Rnd(0..2)
            IN Seek(CASE w = 0 -> off [] w = 1 -> Rnd(-3..3) [] w = 2 -> IF y < 80 THEN -Rnd(0..MaxOf(Len(h.c), 1)) ELSE Rnd(0..3), w)
       [] kind = "write" -> Write(Data(k, IF y < 80 THEN 4 ELSE MaxLen))
       [] kind = "writestring" -> WriteString(Data(k, 4))
       [] kind = "writeat" -> WriteAt(Data(k, 4), off)
       [] kind = "truncate" -> Truncate(IF x < 80 THEN Rnd(0..MaxOf(Len(h.c), 1)) ELSE off)
       [] kind = "sync" -> Sync
       [] kind = "stat" -> StatH
       [] kind = "close" -> Close

Init == hs = <<Closed, Closed>> /\ hist = <<>> /\ \E a \in {Data(11, MaxLen)}, b \in {Data(5, 6)} : ds = IF RO THEN <<a, b>> ELSE <<<<>>, <<>>>>

Next ==
  /\ Len(hist) < Steps
  /\ \E s \in {IF Rnd(1..4) = 1 THEN 2 ELSE 1}, x \in {Rnd(0..99)}, y \in {Rnd(0..99)}, kind \in {Kinds[Rnd(1..Len(Kinds))]} :
       \E o \in {IF ~hs[s].open
                 THEN LET a == Rnd({"r", "w", "rw", "rw"})
                          t == x < 20 /\ a # "r" /\ ~RO
                          p == x >= 80
                      IN [Open(a, t, p) EXCEPT !.creat = (y < 50)]
                 ELSE LET k == IF kind = "writeat" /\ hs[s].app THEN "write"
                               ELSE IF ~hs[s].wr /\ kind \in {"write", "writestring", "writeat", "truncate"} /\ x < 80 THEN "read" ELSE kind
                      IN Draw(hs[s], Len(hist), k, x, y)} :
         \E r \in {CHOOSE r \in Step(hs[s], ds[s], o, TRUE) : TRUE} :
           IF Len(r.h.c) > MaxLen \/ r.h.cur > MaxLen + 4
           THEN UNCHANGED <<hs, ds>> /\ hist' = Append(hist, [StatH EXCEPT !.h = s])
           ELSE /\ hs' = [hs EXCEPT ![s] = IF RO THEN [r.h EXCEPT !.wr = FALSE] ELSE r.h]
                /\ ds' = IF o.op = "close" /\ hs[s].wr THEN [ds EXCEPT ![s] = hs[s].c] ELSE ds
                /\ hist' = Append(hist, [o EXCEPT !.h = s])

Printed == Len(hist) < Steps \/ PrintT(<<"HIST", ToJson(IF RO THEN <<hist, ds>> ELSE hist)>>)
===============================================================================
