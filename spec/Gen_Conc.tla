------------------------------ MODULE Gen_Conc -------------------------------
(***************************************************************************)
(* Generates programs of clients: an order of their calls is executed on   *)
(* the reference, so that most calls make sense; the real clients run      *)
(* without any order. Names stand either for directories or for files.     *)
(***************************************************************************)
EXTENDS RefFS, FSOps, TLC, Json

CONSTANTS DirNames, FileNames, MaxDepth, Steps, Clients, Hot

VARIABLES tree, progs, n, setup

Own == [u |-> 0, g |-> 0]
Modes == {384, 420, 493, 1023, 2541}
Rnd(S) == RandomElement(S)
Or(S, T) == IF S = {} THEN T ELSE S

Dirs(t) == {p \in DOMAIN t : t[p].k = "d" /\ Len(p) < MaxDepth}
NewDirs(t) == {Append(d, x) : d \in Dirs(t), x \in DirNames}
NewFiles(t) == {Append(d, x) : d \in Dirs(t), x \in FileNames}
Content(i) == LET k == Rnd(1..3) IN [j \in 1..k |-> ((i * 3 + j - 1) % 250) + 1]

ADir(t, d) == IF d < 60 THEN Rnd(Or({p \in DOMAIN t : t[p].k = "d" /\ p # Root}, NewDirs(t))) ELSE Rnd(NewDirs(t))
AFile(t, d) == IF d < 60 THEN Rnd(Or({p \in DOMAIN t : t[p].k = "f"}, NewFiles(t))) ELSE Rnd(NewFiles(t))

Session(p, acc, creat, excl, trunc, app, c, k) ==
  [Call("session", p) EXCEPT !.acc = acc, !.creat = creat, !.excl = excl, !.trunc = trunc, !.app = app, !.m = Rnd(Modes), !.c = c, !.k = k]

Kinds == <<"write", "write", "write", "rmw", "read", "read", "mkdir", "mkdir", "mkdirall", "remove", "removeall", "rename", "rename", "chmod", "chown",
           "chtimes", "stat", "list", "list">>

Draw(t, i, k, d, e) ==
  LET either == IF e < 50 THEN ADir(t, d) ELSE AFile(t, d) IN
  CASE k = "write" -> Session(AFile(t, d), Rnd({"w", "rw"}), e < 80, e < 15, e % 3 = 0, e % 3 = 1, Content(i), Rnd({"hwrite", "hwrite hsync", "hwrite hsync hwrite"}))
    [] k = "rmw" -> Session(AFile(t, 0), "rw", FALSE, FALSE, FALSE, FALSE, Content(i), "hread hwrite hstat")
    [] k = "read" -> Session(AFile(t, d), "r", FALSE, FALSE, FALSE, FALSE, <<>>, "hread")
    [] k = "list" -> Session(IF e < 40 THEN Root ELSE ADir(t, d), "r", FALSE, FALSE, FALSE, FALSE, <<>>, "hlist")
    [] k = "mkdir" -> Mkdir(ADir(t, d), Rnd(Modes))
    [] k = "mkdirall" -> MkdirAll(LET p == ADir(t, d) IN IF Len(p) < MaxDepth THEN p \o <<Rnd(DirNames)>> ELSE p, Rnd(Modes))
    [] k = "remove" -> Remove(either)
    [] k = "removeall" -> RemoveAll(either)
    [] k = "rename" -> IF e < 50 THEN Rename(ADir(t, 0), ADir(t, d)) ELSE Rename(AFile(t, 0), AFile(t, d))
    [] k = "chmod" -> Chmod(either, Rnd(Modes))
    [] k = "chown" -> Chown(either, Rnd({0, 1, 1000}), Rnd({0, 5, 1000}))
    [] k = "chtimes" -> Chtimes(either, Rnd(0..8))
    [] k = "stat" -> Stat(either)

\* The effect in some order
Run(t, o) ==
  IF o.op = "session"
  THEN CHOOSE r \in DoOpen(t, Own, [o EXCEPT !.c = IF CanWrite(o) THEN o.c ELSE <<>>]) : TRUE
  ELSE CHOOSE r \in Do(t, Own, o) : TRUE

Init == tree = [p \in {Root} |-> NewDir(Own, 511)] /\ n = 0 /\ progs = [c \in 1..Clients |-> <<>>] /\ setup = <<>>

\* A few entries to start with
Setup ==
  /\ n < 4
  /\ n' = n + 1
  /\ \E p \in {IF n % 2 = 0 THEN Rnd(NewDirs(tree)) ELSE Rnd(NewFiles(tree))} :
       \E o \in {IF n % 2 = 0 THEN MkdirAll(p, 493) ELSE Create(p, Content(90 + n))} :
         \E r \in {CHOOSE r \in Do(tree, Own, o) : TRUE} :
           tree' = r.t /\ setup' = Append(setup, o)
  /\ UNCHANGED progs

\* All clients do the same, or each something of its own
Program ==
  /\ n >= 4 /\ n < Steps
  /\ \E k \in {Kinds[Rnd(1..Len(Kinds))]}, d \in {Rnd(0..99)}, e \in {Rnd(0..99)}, c \in {Rnd(1..Clients)}, all \in {Hot /\ Rnd(0..2) = 0} :
       \E o \in {Draw(tree, n, k, d, e)} :
         IF o.op \in {"remove", "removeall", "rename"} /\ o.p = Root THEN UNCHANGED <<tree, progs>>
         ELSE \E r \in {Run(tree, o)} :
                /\ tree' = r.t
                /\ progs' = IF all THEN [x \in 1..Clients |-> Append(progs[x], o)] ELSE [progs EXCEPT ![c] = Append(@, o)]
  /\ n' = n + 1
  /\ UNCHANGED setup

Next == Setup \/ Program
Printed == n < Steps \/ PrintT(<<"HIST", ToJson([setup |-> setup, progs |-> progs])>>)
==============================================================================
