------------------------------- MODULE Gen_FS -------------------------------
(***************************************************************************)
(* Generates histories: behaviours of the reference in which each call is  *)
(* drawn at random with a bias towards calls that succeed and names that   *)
(* have been used before. Run with -simulate; prints each history.         *)
(***************************************************************************)
EXTENDS RefFS, FSOps, TLC, Json

CONSTANTS Names, MaxDepth, Steps, MaxLen, Focus

VARIABLES tree, hist, used

Own == [u |-> 0, g |-> 0]
Modes == {384, 420, 493, 511, 0, 292, 73, 1023, 1528, 2541}

Rnd(S) == RandomElement(S)

\* A path: mostly of an existing entry, of a new entry in an existing directory, of a name used before, or any
Dirs(t) == {p \in DOMAIN t : t[p].k = "d" /\ Len(p) < MaxDepth}
Files(t) == {p \in DOMAIN t : t[p].k = "f"}
NewIn(t) == {Append(d, n) : d \in Dirs(t), n \in Names}
AnyPath == UNION {[1..n -> Names] : n \in 1..2}
Or(S, T) == IF S = {} THEN T ELSE S

SomePath(t, d) ==
  CASE d \in 0..39 -> Rnd(Or(DOMAIN t \ {Root}, NewIn(t)))
    [] d \in 40..79 -> Rnd(NewIn(t))
    [] d \in 80..93 -> Rnd(Or(used, NewIn(t)))
    [] d \in 94..97 -> Rnd(AnyPath)
    [] OTHER -> Root

Existing(t) == Rnd(Or(DOMAIN t \ {Root}, {Root}))
FreshName(t) == Rnd(Or(NewIn(t) \ DOMAIN t, NewIn(t)))
\* Each write has tokens of its own
Content(h) == LET n == Rnd(0..MaxLen) IN [i \in 1..n |-> ((h * MaxLen + i - 1) % 250) + 1]

\* d and e are dice
Draw(t, h, k, d, e) ==
  CASE k = "create" -> Create(IF d < 70 THEN FreshName(t) ELSE SomePath(t, e), Content(h))
    [] k = "open" ->
         LET ac == Rnd({"r", "w", "rw", "w", "rw"})
             tr == d % 3 = 0 /\ ac # "r"
             ap == d % 3 = 1 /\ ac # "r"
             p == SomePath(t, e)
             cr == d < 40 /\ ~(IsDir(t, p) /\ ac = "r")
         IN Open(p, ac, cr, cr /\ d % 5 = 0, tr, ap, Rnd(Modes), Content(h))
    [] k = "read" -> Read(IF d < 70 THEN Rnd(Or(Files(t), {Root})) ELSE SomePath(t, e))
    [] k = "mkdir" -> Mkdir(IF d < 70 THEN FreshName(t) ELSE SomePath(t, e), Rnd(Modes))
    [] k = "mkdirall" -> MkdirAll(IF d < 60 THEN SomePath(t, e) \o Rnd({<<n>> : n \in Names} \cup {<<n, o>> : n \in Names, o \in Names}) ELSE SomePath(t, e), Rnd(Modes))
    [] k = "remove" -> Remove(IF d < 60 THEN Existing(t) ELSE SomePath(t, e))
    [] k = "removeall" -> RemoveAll(IF d < 60 THEN Existing(t) ELSE SomePath(t, e))
    [] k = "rename" -> Rename(IF d < 85 THEN Existing(t) ELSE SomePath(t, e), SomePath(t, Rnd(0..99)))
    [] k = "chmod" -> Chmod(IF d < 80 THEN Existing(t) ELSE SomePath(t, e), Rnd(Modes))
    [] k = "chown" -> Chown(IF d < 80 THEN Existing(t) ELSE SomePath(t, e), Rnd({0, 1, 1000, 65534, 3000000}), Rnd({0, 5, 1000, 2500000}))
    [] k = "chtimes" -> Chtimes(IF d < 80 THEN Existing(t) ELSE SomePath(t, e), Rnd(0..8))
    [] k = "stat" -> Stat(SomePath(t, e))
    [] k = "list" -> List(IF d < 60 THEN Rnd(Dirs(t) \cup {Root}) ELSE SomePath(t, e), Rnd({-1, 0, 1, 2, 3, 100}))

---------------------------------------------------------------------------
(* Calls of the archive interface, with only valid arguments               *)

Item(p, k, m, c) == [p |-> p, k |-> k, m |-> m, c |-> c]

RECURSIVE PutAll(_, _)
PutAll(t, its) ==
  IF its = <<>> THEN t
  ELSE LET i == Head(its)
       IN PutAll(Put(t, i.p, IF i.k = "d" THEN NewDir(Own, i.m) ELSE NewFile(Own, i.m, i.c)), Tail(its))

Many == {"x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14", "x15", "x16"}

\* A directory with files, many files in a directory, or a few entries
DrawItems(t, h, d) ==
  LET dir == Rnd({q \in DOMAIN t : t[q].k = "d"})
      fresh == {x \in Names : Append(dir, x) \notin DOMAIN t \/ IsFile(t, Append(dir, x))}
  IN IF d < 20
     THEN LET n == Rnd(Names)
              new == Append(dir, n)
          IN IF Has(t, new) THEN <<>>
             ELSE <<Item(new, "d", Rnd(Modes), <<>>)>>
                  \o [i \in 1..Rnd(1..3) |-> Item(Append(new, <<"x1", "x2", "x3">>[i]), "f", Rnd(Modes), Content(h + 7 * i))]
     ELSE IF d < 40 THEN LET n == Rnd(2..16) IN [i \in 1..n |-> Item(Append(dir, "x" \o ToString(i)), "f", Rnd(Modes), Content(h + 5 * i))]
     ELSE LET s == IF fresh = {} THEN <<>> ELSE <<Rnd(fresh)>> IN [i \in 1..Len(s) |-> Item(Append(dir, s[i]), "f", Rnd(Modes), Content(h))]

DrawOps(t, h, k, d, e) ==
  CASE k = "archive" -> [Call("archive", Root) EXCEPT !.items = DrawItems(t, h, d)]
    [] k = "opupdate" ->
         LET p == Existing(t)
             q == Existing(t)
             it(x, y) == Item(x, t[x].k, Rnd(Modes), Content(h + y))
         IN [Call("opupdate", Root) EXCEPT !.items = IF d % 2 = 0 \/ p = q THEN <<it(p, 0)>> ELSE <<it(p, 1), it(q, 2)>>, !.repl = (e < 60)]
    [] k = "opdelete" -> Call("opdelete", Existing(t))
    [] k = "opmove" -> [Call("opmove", Existing(t)) EXCEPT !.q = FreshName(t)]

Batch == {"archive", "opupdate", "opdelete", "opmove"}

SensibleOps(t, o) ==
  CASE o.op = "archive" -> o.items # <<>>
    [] o.op = "opupdate" -> TRUE
    [] o.op = "opdelete" -> o.p # Root
    [] o.op = "opmove" -> o.p # Root /\ ~Within(o.p, o.q) /\ ~Has(t, o.q)

DoOps(t, o) ==
  CASE o.op = "archive" -> PutAll(t, o.items)
    [] o.op = "opupdate" ->
         [p \in DOMAIN t |->
            IF \E i \in 1..Len(o.items) : o.items[i].p = p /\ o.items[i].k = "f" /\ o.repl
            THEN [t[p] EXCEPT !.c = o.items[CHOOSE i \in 1..Len(o.items) : o.items[i].p = p].c] ELSE t[p]]
    [] o.op = "opdelete" -> Without(t, Subtree(t, o.p))
    [] o.op = "opmove" -> Moved(t, o.p, o.q)

Kinds ==
  CASE Focus = "all" -> <<"create", "create", "create", "open", "open", "open", "read", "mkdir", "mkdir", "mkdirall", "remove", "remove",
                          "removeall", "rename", "rename", "rename", "chmod", "chown", "chtimes", "stat", "list">>
    [] Focus = "struct" -> <<"create", "create", "mkdir", "mkdir", "mkdir", "mkdirall", "remove", "removeall", "rename", "rename", "rename", "list">>
    [] Focus = "mutate" -> <<"create", "create", "create", "open", "open", "mkdir", "mkdirall", "remove", "removeall", "rename", "rename",
                             "chmod", "chown", "chtimes">>
    [] Focus = "ops" -> <<"create", "create", "create", "open", "open", "mkdir", "mkdir", "mkdirall", "remove", "removeall", "rename", "rename",
                          "chmod", "chown", "chtimes", "archive", "archive", "archive", "opupdate", "opupdate", "opdelete", "opmove">>

\* Calls whose meaning is not the same for all references are left out
Sensible(t, o) ==
  CASE o.op \in {"remove", "removeall"} -> o.p # Root /\ ~(o.op = "removeall" /\ \E q \in Prefixes(o.p) \ {o.p} : IsFile(t, q))
    [] o.op = "open" -> ~(o.p = Root /\ o.creat)
    [] OTHER -> Len(o.p) <= MaxDepth + 2

Init == tree = [p \in {Root} |-> NewDir(Own, 511)] /\ hist = <<>> /\ used = {}

Next ==
  /\ Len(hist) < Steps
  /\ \E k \in {Kinds[Rnd(1..Len(Kinds))]}, d \in {Rnd(0..99)}, e \in {Rnd(0..99)} :
       \E o \in {IF k \in Batch THEN DrawOps(tree, Len(hist), k, d, e) ELSE Draw(tree, Len(hist), k, d, e)} :
         IF o.op \in Batch
         THEN IF SensibleOps(tree, o)
              THEN \E x \in {DoOps(tree, o)} : tree' = x /\ hist' = Append(hist, o) /\ used' = used \cup (DOMAIN x \ {Root})
              ELSE tree' = tree /\ used' = used /\ hist' = Append(hist, Stat(Root))
         ELSE IF Sensible(tree, o)
         THEN \E r \in {CHOOSE r \in Do(tree, Own, o) : TRUE} :
                /\ tree' = r.t
                /\ hist' = Append(hist, o)
                /\ used' = used \cup (DOMAIN r.t \ {Root})
         ELSE /\ tree' = tree
              /\ used' = used
              /\ hist' = Append(hist, Stat(Root))

Printed == Len(hist) < Steps \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
