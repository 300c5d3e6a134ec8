-------------------------------- MODULE FSOps --------------------------------
(* Calls as records; every call has every field, so that traces and models   *)
(* use the same shape.                                                       *)
EXTENDS Integers, Sequences

Call(op, p) ==
  [op |-> op, p |-> p, q |-> <<>>, acc |-> "r", creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, app |-> FALSE,
   m |-> 0, u |-> 0, g |-> 0, t |-> 0, c |-> <<>>, k |-> "", repl |-> FALSE, items |-> <<>>, n |-> 0]

Create(p, c) == [Call("create", p) EXCEPT !.c = c]
Open(p, acc, creat, excl, trunc, app, m, c) ==
  [Call("open", p) EXCEPT !.acc = acc, !.creat = creat, !.excl = excl, !.trunc = trunc, !.app = app, !.m = m, !.c = c]
Read(p) == Call("read", p)
Mkdir(p, m) == [Call("mkdir", p) EXCEPT !.m = m]
MkdirAll(p, m) == [Call("mkdirall", p) EXCEPT !.m = m]
Remove(p) == Call("remove", p)
RemoveAll(p) == Call("removeall", p)
Rename(p, q) == [Call("rename", p) EXCEPT !.q = q]
Chmod(p, m) == [Call("chmod", p) EXCEPT !.m = m]
Chown(p, u, g) == [Call("chown", p) EXCEPT !.u = u, !.g = g]
Chtimes(p, t) == [Call("chtimes", p) EXCEPT !.t = t]
Stat(p) == Call("stat", p)
List(p, n) == [Call("list", p) EXCEPT !.n = n]
==============================================================================
