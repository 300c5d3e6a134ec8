------------------------------- MODULE RefFS -------------------------------
(***************************************************************************)
(* A functional reference for a hierarchical file system: a tree is a      *)
(* function from paths (sequences of names) to entries, and every call is  *)
(* a pure operator which yields the acceptable outcomes of the call - its  *)
(* result classes together with the tree after it.                         *)
(*                                                                         *)
(* An entry is [k, m, u, g, mt, c]: kind "d" or "f", permission bits,      *)
(* owner, group, the set of acceptable modification times and the content  *)
(* (a sequence of tokens).  Modification time 0 is "while the call ran".   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Now == 0
Root == <<>>

Parent(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]
\* q lies strictly beneath p
Under(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Within(p, q) == p = q \/ Under(p, q)

Has(t, p) == p \in DOMAIN t
IsDir(t, p) == p \in DOMAIN t /\ t[p].k = "d"
IsFile(t, p) == p \in DOMAIN t /\ t[p].k = "f"

Subtree(t, p) == {q \in DOMAIN t : Within(p, q)}
Children(t, p) == {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ Under(p, q)}

WellFormed(t) ==
  /\ IsDir(t, Root)
  /\ \A p \in DOMAIN t \ {Root} : IsDir(t, Parent(p))

Prefixes(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}

---------------------------------------------------------------------------
(* Outcomes: e are the acceptable result classes of the call, ew those of  *)
(* writing within the call (a compound open-write-close), t is the tree.   *)

Ok(t) == {[e |-> {"ok"}, ew |-> {"ok"}, t |-> t]}
Fail(t, classes) == {[e |-> classes, ew |-> {"ok"}, t |-> t]}

Put(t, p, x) == [q \in DOMAIN t \cup {p} |-> IF q = p THEN x ELSE t[q]]
Without(t, S) == [q \in DOMAIN t \ S |-> t[q]]

NewDir(own, m) == [k |-> "d", m |-> m, u |-> own.u, g |-> own.g, mt |-> {Now}, c |-> <<>>]
NewFile(own, m, c) == [k |-> "f", m |-> m, u |-> own.u, g |-> own.g, mt |-> {Now}, c |-> c]

\* Why an entry can not be looked up or created at p: something on the way is a file, or is missing
MissingErr(t, p) ==
  IF \E q \in Prefixes(p) \ {p} : IsFile(t, q) THEN {"notexist", "isfile"} ELSE {"notexist"}

\* An overwrite at the start, or an append at the end
Written(old, new, app) ==
  IF app THEN old \o new
  ELSE new \o SubSeq(old, Len(new) + 1, Len(old))

CanWrite(o) == o.acc \in {"w", "rw"}

(* Open with any flags, write o.c (if not empty) and close *)
DoOpen(t, own, o) ==
  LET p == o.p
      writing == CanWrite(o) \/ o.trunc \/ o.app
      Use(t1, fresh) ==
        LET old == IF o.trunc /\ CanWrite(o) THEN <<>> ELSE t1[p].c
            new == Written(old, o.c, o.app)
            mts == IF CanWrite(o) THEN t1[p].mt \cup {Now} ELSE t1[p].mt
        IN IF Len(o.c) > 0 /\ ~CanWrite(o)
           THEN {[e |-> {"ok"}, ew |-> {"perm"}, t |-> t1]}
           ELSE Ok(IF CanWrite(o) THEN [t1 EXCEPT ![p].c = new, ![p].mt = mts] ELSE t1)
  IN CASE IsDir(t, p) ->
            IF o.creat /\ o.excl THEN Fail(t, {"exist", "isdir"})
            ELSE IF writing THEN Fail(t, {"isdir"})
            ELSE IF Len(o.c) > 0 THEN {[e |-> {"ok"}, ew |-> {"isdir", "perm"}, t |-> t]}
            ELSE Ok(t)
       [] IsFile(t, p) ->
            IF o.creat /\ o.excl THEN Fail(t, {"exist"}) ELSE Use(t, FALSE)
       [] OTHER ->
            IF ~o.creat \/ ~IsDir(t, Parent(p)) THEN Fail(t, MissingErr(t, p))
            ELSE Use(Put(t, p, NewFile(own, o.m, <<>>)), TRUE)

DoCreate(t, own, o) ==
  DoOpen(t, own, [o EXCEPT !.acc = "rw", !.creat = TRUE, !.excl = FALSE, !.trunc = TRUE, !.app = FALSE, !.m = 438])

DoRead(t, o) ==
  IF IsFile(t, o.p) THEN Ok(t)
  ELSE IF IsDir(t, o.p) THEN Fail(t, {"isdir"})
  ELSE Fail(t, MissingErr(t, o.p))

DoMkdir(t, own, o) ==
  IF Has(t, o.p) THEN Fail(t, {"exist"})
  ELSE IF ~IsDir(t, Parent(o.p)) THEN Fail(t, MissingErr(t, o.p))
  ELSE Ok(Put(t, o.p, NewDir(own, o.m)))

DoMkdirAll(t, own, o) ==
  IF \E q \in Prefixes(o.p) : IsFile(t, q) THEN Fail(t, {"isfile", "exist", "notexist"})
  ELSE Ok([q \in DOMAIN t \cup Prefixes(o.p) |-> IF Has(t, q) THEN t[q] ELSE NewDir(own, o.m)])

DoRemove(t, o) ==
  IF ~Has(t, o.p) THEN Fail(t, MissingErr(t, o.p))
  ELSE IF Children(t, o.p) # {} THEN Fail(t, {"notempty"})
  ELSE Ok(Without(t, {o.p}))

DoRemoveAll(t, o) == Ok(Without(t, Subtree(t, o.p)))

\* The tree after the subtree at p has become the subtree at q (and replaced what was there)
Moved(t, p, q) ==
  LET S == Subtree(t, p)
      Keep == DOMAIN t \ (S \cup Subtree(t, q))
      New(r) == q \o SubSeq(r, Len(p) + 1, Len(r))
      NewPaths == {New(r) : r \in S}
      Old(r) == p \o SubSeq(r, Len(q) + 1, Len(r))
  IN [r \in Keep \cup NewPaths |-> IF r \in NewPaths THEN t[Old(r)] ELSE t[r]]

AnyErr == {"notexist", "exist", "notempty", "isdir", "isfile", "perm", "invalid", "other"}

DoRename(t, o) ==
  LET p == o.p
      q == o.q
  IN IF p = Root THEN Fail(t, IF Has(t, q) THEN {"invalid", "exist", "perm", "notempty", "isdir"} ELSE {"invalid", "perm", "notexist", "isfile"})
     ELSE IF ~Has(t, p) THEN Fail(t, MissingErr(t, p) \cup (IF IsDir(t, Parent(q)) THEN {} ELSE MissingErr(t, q)))
     ELSE IF q = Root THEN Fail(t, AnyErr)
     ELSE IF p = q THEN Ok(t)
     ELSE IF Under(p, q) THEN Fail(t, IF IsFile(t, p) THEN {"notexist", "isfile", "invalid"} ELSE AnyErr)
     ELSE IF ~IsDir(t, Parent(q)) THEN Fail(t, MissingErr(t, q))
     ELSE IF ~Has(t, q) THEN Ok(Moved(t, p, q))
     ELSE IF Under(q, p) THEN Fail(t, {"notempty", "exist", "invalid", "isdir"})
     ELSE IF t[p].k # t[q].k THEN Fail(t, {"exist", "isdir", "isfile", "invalid", "notempty"})
     ELSE IF Children(t, q) # {} THEN Fail(t, {"notempty", "exist"})
     ELSE Ok(Moved(t, p, q))

DoAttr(t, o, x) == IF Has(t, o.p) THEN Ok([t EXCEPT ![o.p] = x]) ELSE Fail(t, MissingErr(t, o.p))

DoChmod(t, o) == IF Has(t, o.p) THEN Ok([t EXCEPT ![o.p].m = o.m]) ELSE Fail(t, MissingErr(t, o.p))
DoChown(t, o) == IF Has(t, o.p) THEN Ok([t EXCEPT ![o.p].u = o.u, ![o.p].g = o.g]) ELSE Fail(t, MissingErr(t, o.p))
\* Time value n is time n + 1; the modification time which is being set is the one after the access time
DoChtimes(t, o) == IF Has(t, o.p) THEN Ok([t EXCEPT ![o.p].mt = {o.t + 2}]) ELSE Fail(t, MissingErr(t, o.p))

DoStat(t, o) == IF Has(t, o.p) THEN Ok(t) ELSE Fail(t, MissingErr(t, o.p))
DoList(t, o) ==
  IF IsDir(t, o.p) THEN Ok(t)
  ELSE IF IsFile(t, o.p) THEN Fail(t, {"isfile", "invalid", "notexist"})
  ELSE Fail(t, MissingErr(t, o.p))

\* All acceptable outcomes of a call; own is who the process runs as
Do(t, own, o) ==
  CASE o.op = "open"      -> DoOpen(t, own, o)
    [] o.op = "create"    -> DoCreate(t, own, o)
    [] o.op = "read"      -> DoRead(t, o)
    [] o.op = "mkdir"     -> DoMkdir(t, own, o)
    [] o.op = "mkdirall"  -> DoMkdirAll(t, own, o)
    [] o.op = "remove"    -> DoRemove(t, o)
    [] o.op = "removeall" -> DoRemoveAll(t, o)
    [] o.op = "rename"    -> DoRename(t, o)
    [] o.op = "chmod"     -> DoChmod(t, o)
    [] o.op = "chown"     -> DoChown(t, o)
    [] o.op = "chtimes"   -> DoChtimes(t, o)
    [] o.op = "stat"      -> DoStat(t, o)
    [] o.op = "list"      -> DoList(t, o)

\* The entries which a call may touch; everything else has to stay exactly as it was
Scope(o) == IF o.op \in {"rename", "opmove"} THEN {o.p, o.q} ELSE {o.p}

=============================================================================
