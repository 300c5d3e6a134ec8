------------------------------- MODULE Handle -------------------------------
(***************************************************************************)
(* An open file as a byte array with a cursor. Content, offsets and counts *)
(* are in units (tokens), 0 is a unit of zero bytes.                       *)
(* A handle is [open, rd, wr, app, c, cur]; Step yields the acceptable     *)
(* outcomes of a call: result classes e, count or offset n, units b which  *)
(* are returned, and the handle after the call.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Call(op, n, off, wh, c) == [op |-> op, h |-> 1, acc |-> "r", creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, app |-> FALSE,
                            n |-> n, off |-> off, wh |-> wh, c |-> c]
Open(acc, trunc, app) == [Call("open", 0, 0, 0, <<>>) EXCEPT !.acc = acc, !.trunc = trunc, !.app = app]
Read(n) == Call("read", n, 0, 0, <<>>)
ReadAt(n, off) == Call("readat", n, off, 0, <<>>)
Seek(off, wh) == Call("seek", 0, off, wh, <<>>)
Write(c) == Call("write", 0, 0, 0, c)
WriteString(c) == Call("writestring", 0, 0, 0, c)
WriteAt(c, off) == Call("writeat", 0, off, 0, c)
Truncate(n) == Call("truncate", n, 0, 0, <<>>)
Sync == Call("sync", 0, 0, 0, <<>>)
StatH == Call("stat", 0, 0, 0, <<>>)
Close == Call("close", 0, 0, 0, <<>>)

Closed == [open |-> FALSE, rd |-> FALSE, wr |-> FALSE, app |-> FALSE, c |-> <<>>, cur |-> 0]

Zeroes(n) == [i \in 1..n |-> 0]
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a < b THEN b ELSE a

\* The array after d has been written at off, which may be beyond its end
Overlay(c, d, off) ==
  IF d = <<>> THEN c
  ELSE LET n == MaxOf(Len(c), off + Len(d))
       IN [i \in 1..n |-> IF i > off /\ i <= off + Len(d) THEN d[i - off]
                          ELSE IF i <= Len(c) THEN c[i] ELSE 0]

Resize(c, n) == IF n <= Len(c) THEN SubSeq(c, 1, n) ELSE c \o Zeroes(n - Len(c))

Failing == {"perm", "invalid", "other", "isdir", "eof"}

Out(e, n, b, h) == [e |-> e, n |-> n, b |-> b, h |-> h]

\* What reading n units at off yields: fewer only at the end, and the end is only reported there
Slice(h, n, off) == SubSeq(h.c, off + 1, MinOf(Len(h.c), off + n))

StepRead(h, o) ==
  IF o.n = 0 THEN {Out({"ok", "eof", "perm"}, 0, <<>>, h)}
  ELSE IF ~h.rd THEN {Out({"perm", "invalid", "other"}, 0, <<>>, h)}
  ELSE IF h.cur >= Len(h.c) THEN {Out({"eof"}, 0, <<>>, h)}
  ELSE LET b == Slice(h, o.n, h.cur)
       IN {Out({"ok"} \cup (IF h.cur + Len(b) = Len(h.c) THEN {"eof"} ELSE {}), Len(b), b, [h EXCEPT !.cur = @ + Len(b)])}

StepReadAt(h, o) ==
  IF o.n = 0 THEN {Out({"ok", "eof", "perm", "invalid"}, 0, <<>>, h)}
  ELSE IF ~h.rd THEN {Out({"perm", "invalid", "other"}, 0, <<>>, h)}
  ELSE IF o.off < 0 THEN {Out(Failing, 0, <<>>, h)}
  ELSE IF o.off >= Len(h.c) THEN {Out({"eof"}, 0, <<>>, h)}
  ELSE LET b == Slice(h, o.n, o.off)
       IN {Out(IF Len(b) < o.n THEN {"eof"} ELSE {"ok"} \cup (IF o.off + Len(b) = Len(h.c) THEN {"eof"} ELSE {}), Len(b), b, h)}

StepSeek(h, o) ==
  LET base == CASE o.wh = 0 -> 0 [] o.wh = 1 -> h.cur [] o.wh = 2 -> Len(h.c)
      dst == base + o.off
  IN IF dst < 0 THEN {Out(Failing, 0, <<>>, h)} ELSE {Out({"ok"}, dst, <<>>, [h EXCEPT !.cur = dst])}

StepWrite(h, o) ==
  IF ~h.wr THEN {Out({"perm", "invalid", "other"} \cup (IF o.c = <<>> THEN {"ok"} ELSE {}), 0, <<>>, h)}
  ELSE LET at == IF h.app THEN Len(h.c) ELSE h.cur
           done == [h EXCEPT !.c = Overlay(@, o.c, at), !.cur = at + Len(o.c)]
       IN {Out({"ok"}, Len(o.c), <<>>, done)} \cup (IF o.c = <<>> THEN {Out({"ok"}, 0, <<>>, h)} ELSE {})

StepWriteAt(h, o) ==
  IF ~h.wr THEN {Out({"perm", "invalid", "other"} \cup (IF o.c = <<>> THEN {"ok"} ELSE {}), 0, <<>>, h)}
  ELSE IF o.off < 0 THEN {Out(Failing, 0, <<>>, h)}
  ELSE {Out({"ok"}, Len(o.c), <<>>, [h EXCEPT !.c = Overlay(@, o.c, o.off)])}

StepTruncate(h, o) ==
  IF ~h.wr THEN {Out({"perm", "invalid", "other"}, 0, <<>>, h)}
  ELSE IF o.n < 0 THEN {Out(Failing, 0, <<>>, h)}
  ELSE {Out({"ok"}, 0, <<>>, [h EXCEPT !.c = Resize(@, o.n)])}

\* d is what the file contains when it is opened; wpr: writing implies reading
StepOpen(d, o, wpr) ==
  LET wr == o.acc # "r"
  IN {Out({"ok"}, 0, <<>>, [open |-> TRUE, rd |-> o.acc # "w" \/ wpr, wr |-> wr, app |-> o.app,
                            c |-> IF o.trunc /\ wr THEN <<>> ELSE d, cur |-> 0])}

Step(h, d, o, wpr) ==
  CASE o.op = "open" -> StepOpen(d, o, wpr)
    [] o.op = "read" -> StepRead(h, o)
    [] o.op = "readat" -> StepReadAt(h, o)
    [] o.op = "seek" -> StepSeek(h, o)
    [] o.op \in {"write", "writestring"} -> StepWrite(h, o)
    [] o.op = "writeat" -> StepWriteAt(h, o)
    [] o.op = "truncate" -> StepTruncate(h, o)
    [] o.op = "sync" -> {Out(IF h.wr THEN {"ok"} ELSE {"ok", "perm", "invalid"}, 0, <<>>, h)}
    [] o.op = "stat" -> {Out({"ok"}, Len(h.c), <<>>, h)}
    [] o.op = "close" -> {Out({"ok"}, 0, <<>>, Closed)}
=============================================================================
