------------------------------ MODULE ReadOnly ------------------------------
(***************************************************************************)
(* What the calls of a read-only file system may yield: the tree never     *)
(* changes, reading calls are those of the reference, and every            *)
(* mutating call is refused with a permission error, even if it would not  *)
(* find what it is meant to change. Opening only mutates with some flags.  *)
(***************************************************************************)
EXTENDS RefFS

Reading == {"read", "stat", "list"}

\* What opening may yield
Opens(t, own, o) ==
  LET writing == CanWrite(o) \/ o.trunc \/ o.app
  IN CASE IsDir(t, o.p) -> {"isdir", "perm"} \cup (IF o.creat /\ o.excl THEN {"exist"} ELSE IF o.trunc THEN {} ELSE {"ok"})
       [] IsFile(t, o.p) -> IF o.trunc /\ CanWrite(o) THEN {"perm"} \cup (IF o.creat /\ o.excl THEN {"exist"} ELSE {})
                            ELSE IF o.creat /\ o.excl THEN {"perm", "exist"}
                            ELSE IF writing THEN {"perm", "ok"} ELSE {"ok"}
       [] OTHER -> IF o.creat /\ IsDir(t, Parent(o.p)) THEN {"perm"}
                   ELSE MissingErr(t, o.p) \cup (IF o.creat \/ o.trunc THEN {"perm"} ELSE {})

Results(t, own, o) ==
  CASE o.op \in Reading -> UNION {r.e : r \in Do(t, own, o)}
    [] o.op = "open" -> Opens(t, own, o)
    [] o.op = "create" -> {"perm"} \cup (IF IsDir(t, o.p) THEN {"isdir"} ELSE IF IsFile(t, o.p) \/ IsDir(t, Parent(o.p)) THEN {} ELSE MissingErr(t, o.p))
    [] OTHER -> {"perm"} \* Whatever there is

\* What writing to what has been opened may yield
Writes(t, o) ==
  IF o.c = <<>> THEN {"ok", "perm"} ELSE IF IsDir(t, o.p) THEN {"perm", "isdir"} ELSE {"perm"}
=============================================================================
