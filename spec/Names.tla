------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* How paths are spelled, and which row of the index they refer to. A      *)
(* spelling is [pre, c, slash]: what it starts with ("/", "./" or ""), its *)
(* components and whether it ends with a slash. The root is the row with   *)
(* the fewest components; it decides how all other rows are spelled.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Spelling(pre, c, slash) == [pre |-> pre, c |-> c, slash |-> slash]

\* The spellings of the root which archives have
IsRoot(s) == s.c = <<>>

\* The row which a spelling refers to: the way in which the root is spelled, and the components. Rows have no trailing slash.
Row(root, s) ==
  IF IsRoot(s) THEN [root EXCEPT !.slash = FALSE]
  ELSE Spelling(CASE root.pre = "/" -> "/"
                  [] root.c = <<>> -> root.pre
                  [] OTHER -> "", s.c, FALSE)

\* A member of an archive below root is named after it
Member(root, p) == Spelling(root.pre, root.c \o p, FALSE)

\* Calls refer to paths below the root; a view puts the components of the root before them if there are any
InView(root, s) == [s EXCEPT !.c = root.c \o @]

\* The row which is the root of an index
RootOf(rows) == CHOOSE s \in rows : \A q \in rows : Len(s.c) <= Len(q.c)
=============================================================================
