------------------------------ MODULE MC_Drive -------------------------------
(***************************************************************************)
(* The design: callers which share one file system and its archive         *)
(* interface. A call takes the locks of its layers from the outside to the *)
(* inside, opens the drive, and gives everything back on all ways out. Any *)
(* step may fail. Checks that nobody waits forever, that all calls return, *)
(* and that the drive is free and no lock is held after that (C10, C11).   *)
(***************************************************************************)
EXTENDS Drive, FiniteSets, TLC

CONSTANTS Callers, Calls, Faults, \* Calls per caller, and faults in total
          KeepOnError             \* A broken design, in which a failure keeps what is held: to see that the properties can fail

VARIABLES drive, locks, pc, kind, ev, left, faults

vars == <<drive, locks, pc, kind, ev, left, faults>>

\* Kinds of calls: which locks they take, and what they do with the drive
Kinds == {"fs-read", "fs-write", "fs-index", "archive", "restore", "query"}
Locks(k) ==
  CASE k = "fs-read" -> <<"io", "rop">>
    [] k = "fs-write" -> <<"io", "wop">>
    [] k = "fs-index" -> <<"io">>
    [] k = "archive" -> <<"wop">>
    [] k = "restore" -> <<"rop">>
    [] k = "query" -> <<>>
Sessions(k) ==
  CASE k \in {"fs-read", "restore", "query"} -> <<"r">>
    [] k \in {"fs-write", "archive"} -> <<"w", "r">>
    [] k = "fs-index" -> <<>> \* Only looks at the index

\* The program of a call: acquire locks, then open, use and close for each session
Idle == [at |-> "idle", i |-> 0]

Init ==
  /\ drive = Free
  /\ locks = [x \in {"io", "rop", "wop"} |-> "none"]
  /\ pc = [c \in Callers |-> Idle]
  /\ kind = [c \in Callers |-> "query"]
  /\ ev = [c \in Callers |-> <<>>]
  /\ left = [c \in Callers |-> Calls]
  /\ faults = Faults

Start(c) ==
  /\ pc[c].at = "idle" /\ left[c] > 0
  /\ \E k \in Kinds : kind' = [kind EXCEPT ![c] = k]
  /\ pc' = [pc EXCEPT ![c] = [at |-> "lock", i |-> 1]]
  /\ ev' = [ev EXCEPT ![c] = <<>>]
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ UNCHANGED <<drive, locks, faults>>

Lock(c) ==
  /\ pc[c].at = "lock"
  /\ LET ls == Locks(kind[c])
     IN IF pc[c].i > Len(ls)
        THEN /\ \/ pc' = [pc EXCEPT ![c] = [at |-> "look", i |-> 1]]
             /\ UNCHANGED locks
        ELSE /\ locks[ls[pc[c].i]] = "none"
             /\ locks' = [locks EXCEPT ![ls[pc[c].i]] = c]
             /\ pc' = [pc EXCEPT ![c].i = @ + 1]
  /\ UNCHANGED <<drive, kind, ev, left, faults>>

\* Looking at the index, which may fail or reject the call
Look(c) ==
  /\ pc[c].at = "look"
  /\ \/ pc' = [pc EXCEPT ![c] = [at |-> "open", i |-> 1]] /\ UNCHANGED faults
     \/ pc' = [pc EXCEPT ![c] = [at |-> "out", i |-> 0]] /\ UNCHANGED faults
  /\ UNCHANGED <<drive, locks, kind, ev, left>>

Open(c) ==
  /\ pc[c].at = "open"
  /\ LET ss == Sessions(kind[c])
     IN IF pc[c].i > Len(ss)
        THEN pc' = [pc EXCEPT ![c] = [at |-> "out", i |-> 0]] /\ UNCHANGED <<drive, ev, faults>>
        ELSE /\ drive = Free
             /\ \/ /\ drive' = ss[pc[c].i]
                   /\ pc' = [pc EXCEPT ![c].at = "use"]
                   /\ ev' = [ev EXCEPT ![c] = Append(@, ss[pc[c].i] \o "+")]
                   /\ UNCHANGED faults
                \/ /\ faults > 0
                   /\ faults' = faults - 1
                   /\ pc' = [pc EXCEPT ![c] = [at |-> "out", i |-> 0]]
                   /\ ev' = [ev EXCEPT ![c] = Append(@, ss[pc[c].i] \o "-err")]
                   /\ UNCHANGED drive
  /\ UNCHANGED <<locks, kind, left>>

\* Using the drive, the source or the index; a failure ends the call, but closes the drive
Use(c) ==
  /\ pc[c].at = "use"
  /\ \/ pc' = [pc EXCEPT ![c].at = "close"] /\ UNCHANGED faults
     \/ /\ faults > 0
        /\ faults' = faults - 1
        /\ pc' = [pc EXCEPT ![c].at = IF KeepOnError THEN "out" ELSE "abort"]
  /\ UNCHANGED <<drive, locks, kind, ev, left>>

CloseDrive(c) ==
  /\ pc[c].at \in {"close", "abort"}
  /\ drive' = Free
  /\ ev' = [ev EXCEPT ![c] = Append(@, "-")]
  /\ \/ pc' = [pc EXCEPT ![c] = IF pc[c].at = "abort" THEN [at |-> "out", i |-> 0] ELSE [at |-> "open", i |-> pc[c].i + 1]] /\ UNCHANGED faults
     \/ faults > 0 /\ faults' = faults - 1 /\ pc' = [pc EXCEPT ![c] = [at |-> "out", i |-> 0]]
  /\ UNCHANGED <<locks, kind, left>>

Return(c) ==
  /\ pc[c].at = "out"
  /\ locks' = [x \in DOMAIN locks |-> IF locks[x] = c THEN "none" ELSE locks[x]]
  /\ pc' = [pc EXCEPT ![c] = Idle]
  /\ UNCHANGED <<drive, kind, ev, left, faults>>

Finished == \A c \in Callers : pc[c].at = "idle" /\ left[c] = 0

Next == (\E c \in Callers : Start(c) \/ Lock(c) \/ Look(c) \/ Open(c) \/ Use(c) \/ CloseDrive(c) \/ Return(c))
        \/ (Finished /\ UNCHANGED vars)

Fair == \A c \in Callers : SF_vars(Lock(c)) /\ SF_vars(Open(c)) /\ WF_vars(Start(c)) /\ WF_vars(Look(c)) /\ WF_vars(Use(c)) /\ WF_vars(CloseDrive(c)) /\ WF_vars(Return(c))

Spec == Init /\ [][Next]_vars /\ Fair

\* What a call has done at the drive leaves it free, and the drive has one user at most
Bracketed == \A c \in Callers : pc[c].at = "idle" => After(Free, ev[c]) = Free
NeverStuck == \A c \in Callers : After(Free, ev[c]) # Stuck
FreeBetween == (\A c \in Callers : pc[c].at = "idle") => drive = Free /\ \A x \in DOMAIN locks : locks[x] = "none"
OneUser == Cardinality({c \in Callers : pc[c].at \in {"use", "close", "abort"}}) <= 1

AllReturn == <>Finished
==============================================================================
