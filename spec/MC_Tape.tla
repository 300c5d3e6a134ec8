------------------------------- MODULE MC_Tape -------------------------------
(***************************************************************************)
(* The design: each call of the file system appends records, the index is  *)
(* the fold of the tape. Checks exhaustively, for all sequences of calls   *)
(* of bounded length over a small universe, that                           *)
(*  - the tree which the index shows is the tree of the reference (C01),   *)
(*  - positions designate the record with the current content (C04),       *)
(*  - the tape only grows, and not if a call fails (C05),                  *)
(*  - each prefix of the tape shows the tree after one of the calls, or a  *)
(*    tree on the way from one to the next (C06),                          *)
(*  - replaying the tape over the index of any of its prefixes yields the  *)
(*    same index (C07),                                                    *)
(*  - records between a removal or rename only concern its subtree (C12).  *)
(***************************************************************************)
EXTENDS RefFS, FSOps, Tape, SequencesExt, TLC

CONSTANTS Names, Depth, Calls

VARIABLES tree, tape, idx, n, last

Own == [u |-> 0, g |-> 0]
Paths == UNION {[1..k -> Names] : k \in 1..Depth}

\* Entries before those beneath them
Ordered(S) == SetToSortSeq(S, LAMBDA x, y : Len(x) < Len(y))

Rec(act, p, f, k, m, c) == [a |-> 0, act |-> act, p |-> p, f |-> f, k |-> k, m |-> m, c |-> c]

MapSeq(S, Op(_)) == LET s == Ordered(S) IN [i \in 1..Len(s) |-> Op(s[i])]

\* What a successful call appends
Emit(t, o, t2) ==
  CASE o.op = "create" ->
         (IF Has(t, o.p) THEN <<>> ELSE <<Rec("create", o.p, <<>>, "f", t2[o.p].m, <<>>)>>)
         \o (IF Has(t, o.p) /\ t[o.p].c = <<>> /\ o.c = <<>> THEN <<>>
             ELSE IF ~Has(t, o.p) /\ o.c = <<>> THEN <<>>
             ELSE <<Rec("update", o.p, <<>>, "f", t2[o.p].m, t2[o.p].c)>>)
    [] o.op = "mkdir" -> <<Rec("create", o.p, <<>>, "d", o.m, <<>>)>>
    [] o.op = "chmod" -> <<Rec("meta", o.p, <<>>, t[o.p].k, o.m, <<>>)>>
    [] o.op \in {"remove", "removeall"} -> MapSeq(Subtree(t, o.p), LAMBDA q : Rec("delete", q, <<>>, t[q].k, 0, <<>>))
    [] o.op = "rename" ->
         IF o.p = o.q THEN <<>>
         ELSE MapSeq(Subtree(t, o.q), LAMBDA q : Rec("delete", q, <<>>, t[q].k, 0, <<>>))
              \o MapSeq(Subtree(t, o.p), LAMBDA q : Rec("move", o.q \o SubSeq(q, Len(o.p) + 1, Len(q)), q, t[q].k, t[q].m, <<>>))

Ops ==
  {Create(p, c) : p \in Paths, c \in {<<>>, <<1>>}} \cup {Mkdir(p, 493) : p \in Paths} \cup {Chmod(p, 420) : p \in Paths}
  \cup {Remove(p) : p \in Paths} \cup {RemoveAll(p) : p \in Paths} \cup {Rename(p, q) : p \in Paths, q \in Paths}

Norm(t) == [p \in DOMAIN t |-> [k |-> t[p].k, m |-> t[p].m, u |-> 0, g |-> 0, mt |-> {}, c |-> t[p].c]]

Start == <<[Rec("create", Root, <<>>, "d", 511, <<>>) EXCEPT !.a = 1]>>

Init ==
  /\ tree = Norm([p \in {Root} |-> NewDir(Own, 511)])
  /\ tape = Start
  /\ idx = Rebuild(Start)
  /\ n = 0
  /\ last = [o |-> Call("init", Root), ok |-> TRUE, len |-> 1]

Next ==
  /\ n < Calls
  /\ n' = n + 1
  /\ \E o \in Ops :
       \E r \in Do(tree, Own, o) :
         LET ok == r.e = {"ok"}
             new == IF ok THEN Emit(tree, o, r.t) ELSE <<>>
             recs == [i \in 1..Len(new) |-> [new[i] EXCEPT !.a = Len(tape) + i]]
         IN /\ \A p \in DOMAIN r.t : Len(p) <= Depth
            /\ tree' = Norm(r.t)
            /\ tape' = tape \o recs
            /\ idx' = FoldAll(idx, recs)
            /\ last' = [o |-> o, ok |-> ok, len |-> Len(tape)]

vars == <<tree, tape, idx, n, last>>

ShowTree(i) == [p \in DOMAIN i |-> [k |-> i[p].x.k, m |-> i[p].x.m, u |-> 0, g |-> 0, mt |-> {}, c |-> i[p].y.c]]

Shown == ShowTree(idx) = tree
PureFunctionOfTape == Rebuild(tape) = idx
Designated == \A p \in DOMAIN idx : /\ tape[Pos(idx, p)].act \in {"create", "update"}
                                    /\ tape[Pos(idx, p)].c = tree[p].c
                                    /\ idx[p].last >= Pos(idx, p)
LastWritten == tape # Start => \/ \E p \in DOMAIN idx : idx[p].last = Len(tape)
                               \/ tape[Len(tape)].act = "delete"
WellFormedTree == WellFormed(tree)
Converges == \A j \in 0..Len(tape) : ShowTree(FoldAll(Rebuild(SubSeq(tape, 1, j)), tape)) = tree
\* The entries which a cut off call has not reached are as before, and those which it has reached are as after it
CutOff ==
  LET before == ShowTree(Rebuild(SubSeq(tape, 1, last.len)))
  IN \A j \in last.len..Len(tape) :
       LET x == ShowTree(Rebuild(SubSeq(tape, 1, j)))
       IN \A p \in DOMAIN x : (p \in DOMAIN before /\ x[p] = before[p])
                              \/ (p \in DOMAIN tree /\ x[p] = tree[p])
                              \/ (p \in DOMAIN tree /\ last.o.op = "create" /\ x[p].c = <<>>)
OnlySubtree ==
  last.o.op \in {"remove", "removeall", "rename"} =>
    \A j \in last.len + 1..Len(tape) : \E s \in Scope(last.o) : Within(s, tape[j].p)

AppendOnly == [][/\ SubSeq(tape', 1, Len(tape)) = tape
                 /\ (~last'.ok => tape' = tape)]_vars
==============================================================================
