----------------------------- MODULE MC_Secrecy -----------------------------
(***************************************************************************)
(* Calls append records of all kinds to a tape. Checks that without a key, *)
(* or with the key of somebody else, nothing but sizes is learned of them, *)
(* that nobody else can rebuild an index or restore anything, and that the *)
(* owner can. Leaks: kinds of records which are not wrapped; Open: parts   *)
(* which are not encrypted even though they are wrapped.                   *)
(***************************************************************************)
EXTENDS Crypto, TLC

CONSTANTS MaxRecords, Leaks, Open

VARIABLE tape

\* Each kind of record has secrets of its own
Kinds == {"root", "dir", "file", "empty", "link", "content", "metadata", "move", "delete"}
Metadata == {"name", "owner", "time", "mode", "action"}
Secrets(k) == CASE k = "link" -> Metadata \cup {"target"}
                [] k = "move" -> Metadata \cup {"old name"}
                [] k \in {"file", "content"} -> Metadata \cup {"plain size"}
                [] OTHER -> Metadata
Body(k) == IF k \in {"file", "content"} THEN {"content"} ELSE {}

Record(k) ==
  LET r == Wrapped(k \notin Leaks, Secrets(k), Body(k)) IN
  [kind |-> k, rec |-> [outer |-> r.outer,
                        hdr |-> IF "hdr" \in Open /\ k \notin Leaks THEN Plain(Secrets(k)) ELSE r.hdr,
                        data |-> IF "data" \in Open THEN Plain(Body(k)) ELSE r.data]]

Init == tape = <<>>
Next == Len(tape) < MaxRecords /\ \E k \in Kinds : (k = "root" <=> tape = <<>>) /\ tape' = Append(tape, Record(k))
Spec == Init /\ [][Next]_tape

RECURSIVE Readable(_, _, _)
\* What somebody with these keys rebuilds an index of
Readable(tp, i, ks) == IF i > Len(tp) THEN TRUE ELSE Opens(tp[i].rec.hdr, ks) /\ Readable(tp, i + 1, ks)

All == UNION {Visible(tape[i].rec, {}) : i \in 1..Len(tape)}
Blind == All \subseteq Wrapper
Stranger == \A i \in 1..Len(tape) : Visible(tape[i].rec, {Mal}) \subseteq Wrapper
Useless == tape # <<>> => ~Readable(tape, 1, {Mal}) /\ ~Readable(tape, 1, {}) /\ \A i \in 1..Len(tape) : ~Opens(tape[i].rec.hdr, {Mal})
Owner == Readable(tape, 1, {Own}) /\ \A i \in 1..Len(tape) : Secrets(tape[i].kind) \cup Body(tape[i].kind) \subseteq Visible(tape[i].rec, {Own})
==============================================================================
