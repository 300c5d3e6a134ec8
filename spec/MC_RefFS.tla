------------------------------ MODULE MC_RefFS ------------------------------
(***************************************************************************)
(* Exhaustive model of the reference over a small universe. Checks that    *)
(* the reference itself has the properties which the code is held to       *)
(* (well-formedness, frame conditions, atomic failure), and exports every  *)
(* transition, so that each one is replayed against the real code.         *)
(***************************************************************************)
EXTENDS RefFS, FSOps, TLC, Json

CONSTANTS Names, Depth, MaxTok, Export

Contents == {<<>>} \cup {<<i>> : i \in 1..MaxTok}

VARIABLES tree, last

Paths == UNION {[1..n -> Names] : n \in 1..Depth}
AllPaths == Paths \cup {Root}

Own == [u |-> 0, g |-> 0]

Opens(p) ==
  {Open(p, a, cr, ex, tr, ap, 420, c) :
     a \in {"r", "w", "rw"}, cr \in BOOLEAN, ex \in BOOLEAN, tr \in BOOLEAN, ap \in BOOLEAN, c \in Contents}

\* Calls whose meaning is not the same for all references are left out
Sensible(t, o) ==
  CASE o.op = "open" ->
         /\ o.excl => o.creat
         /\ (o.trunc \/ o.app) => o.acc # "r"
         /\ ~(o.trunc /\ o.app)
         /\ (o.creat /\ IsDir(t, o.p)) => o.acc # "r"
    [] o.op \in {"remove", "removeall"} -> o.p # Root
    [] OTHER -> TRUE

Ops ==
  UNION {Opens(p) : p \in Paths}
  \cup {Create(p, c) : p \in AllPaths, c \in Contents}
  \cup {Mkdir(p, 493) : p \in AllPaths} \cup {MkdirAll(p, 493) : p \in AllPaths}
  \cup {Remove(p) : p \in Paths} \cup {RemoveAll(p) : p \in Paths}
  \cup {Rename(p, q) : p \in AllPaths, q \in AllPaths}
  \cup {Chmod(p, 420) : p \in AllPaths} \cup {Chown(p, 0, 0) : p \in AllPaths}
  \cup {Chtimes(p, 1) : p \in AllPaths}
  \cup {Read(p) : p \in AllPaths} \cup {Stat(p) : p \in AllPaths} \cup {List(p, -1) : p \in AllPaths}

\* Only structure and content are part of the model's state
Norm(t) == [p \in DOMAIN t |-> [k |-> t[p].k, m |-> 0, u |-> 0, g |-> 0, mt |-> {Now}, c |-> t[p].c]]

Bounded(t) == \A p \in DOMAIN t : Len(p) <= Depth /\ Len(t[p].c) <= 1

Empty == [p \in {Root} |-> [k |-> "d", m |-> 0, u |-> 0, g |-> 0, mt |-> {Now}, c |-> <<>>]]

Init == tree = Empty /\ last = [o |-> Call("init", Root), e |-> {"ok"}]

Next ==
  \E o \in Ops :
    /\ Sensible(tree, o)
    /\ \E r \in Do(tree, Own, o) :
         /\ Bounded(r.t)
         /\ tree' = Norm(r.t)
         /\ last' = [o |-> o, e |-> r.e]

View == tree

---------------------------------------------------------------------------
TypeOK == WellFormed(tree)

\* A failed call changes nothing
Atomic == [][last'.e \cap {"ok"} = {} => tree' = tree]_<<tree, last>>

\* A call only touches entries within its scope (and creates missing parents for mkdirall)
Frame ==
  [][\A p \in DOMAIN tree \cup DOMAIN tree' :
        (\A s \in Scope(last'.o) : ~Within(s, p))
        => \/ /\ p \in DOMAIN tree
              /\ p \in DOMAIN tree'
              /\ tree[p] = tree'[p]
           \/ /\ last'.o.op = "mkdirall"
              /\ Within(p, last'.o.p)]_<<tree, last>>

\* Recursive removal and renaming affect every entry of the subtree
Whole ==
  [][/\ (last'.o.op = "removeall" => Subtree(tree', last'.o.p) = {})
     /\ (last'.o.op = "rename" /\ last'.e = {"ok"} /\ last'.o.p # last'.o.q)
          => /\ Subtree(tree', last'.o.p) = {}
             /\ {SubSeq(r, Len(last'.o.p) + 1, Len(r)) : r \in Subtree(tree, last'.o.p)}
                = {SubSeq(r, Len(last'.o.q) + 1, Len(r)) : r \in Subtree(tree', last'.o.q)}]_<<tree, last>>

\* A directory never moves into its own subtree
NoOwnSubtree == [][last'.o.op = "rename" /\ Under(last'.o.p, last'.o.q) => last'.e \cap {"ok"} = {}]_<<tree, last>>

\* Prints each transition
TreeSeq(t) == [p \in DOMAIN t |-> t[p].c]
Exported ==
  Export => PrintT(<<"EDGE", ToJson([s |-> {<<p, tree[p].k, tree[p].c>> : p \in DOMAIN tree}, o |-> last'.o,
                                     d |-> {<<p, tree'[p].k, tree'[p].c>> : p \in DOMAIN tree'}])>>)
=============================================================================
