------------------------------ MODULE MC_Names ------------------------------
(***************************************************************************)
(* Archives with all kinds of roots, to which entries are added under any  *)
(* spelling: each path is one row, whichever way it is spelled, different  *)
(* paths are different rows, and an index which is built from the names on *)
(* the tape has the same rows.                                             *)
(***************************************************************************)
EXTENDS Names, TLC

CONSTANTS Comps, Depth, Entries

VARIABLES root, tape, rows

vars == <<root, tape, rows>>

Paths == UNION {[1..n -> Comps] : n \in 1..Depth}
Pres == {"/", "./", ""}
Roots == {Spelling("/", <<>>, TRUE), Spelling("./", <<>>, TRUE)} \cup {Spelling(pre, c, TRUE) : pre \in Pres, c \in {<<"a">>, <<"t">>, <<"t", "a">>}}
Spellings(p) == {Spelling(pre, p, sl) : pre \in Pres, sl \in BOOLEAN}

\* The names of the rows of an index which is built from a tape: the first name of a tape is that of the root
Built(names) == {Row(names[1], names[i]) : i \in 1..Len(names)}

Init ==
  /\ root \in Roots
  /\ tape = <<root>>
  /\ rows = Built(tape)

\* An archiver or a caller adds the entry p
Archive(p) == tape' = Append(tape, Member(root, p)) /\ rows' = rows \cup {Row(root, Member(root, p))}
Add(p) == \E s \in Spellings(p) :
  LET r == Row(root, InView(root, s)) IN tape' = Append(tape, r) /\ rows' = rows \cup {r}

Next == Len(tape) <= Entries /\ (\E p \in Paths : Archive(p) \/ Add(p)) /\ UNCHANGED root

Spec == Init /\ [][Next]_vars

\* All spellings of a path refer to one row, through the view or without it, and no other path does
OneRow ==
  \A p \in Paths : \A s1, s2 \in Spellings(p) :
    Row(root, InView(root, s1)) = Row(root, InView(root, s2))
NoMixup == \A p, q \in Paths : p # q => Row(root, Member(root, p)) # Row(root, Member(root, q))
\* What has been archived is what calls refer to
SameEntry == \A p \in Paths : \A s \in Spellings(p) : Row(root, InView(root, s)) = Row(root, Member(root, p))
Rebuilt == Built(tape) = rows
RootFound == RootOf(rows) = Row(root, root)
=============================================================================
