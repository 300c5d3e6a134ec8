-------------------------------- MODULE Drive --------------------------------
(***************************************************************************)
(* The one drive: it is free, or it has been opened for writing or reading *)
(* by the call which is in progress. Opening it a second time would wait   *)
(* forever. What happens at the drive is a sequence of events:             *)
(*   w+ r+        it has been opened                                       *)
(*   w-err r-err  it could not be opened, which leaves it as it was        *)
(*   -            it has been closed, no matter whether that failed        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Free == "free"
Stuck == "stuck"

Step(d, e) ==
  CASE d = Stuck -> Stuck
    [] e = "w+" -> IF d = Free THEN "w" ELSE Stuck
    [] e = "r+" -> IF d = Free THEN "r" ELSE Stuck
    [] e \in {"w-err", "r-err"} -> IF d = Free THEN Free ELSE Stuck
    [] e = "-" -> Free

RECURSIVE After(_, _)
After(d, evs) == IF evs = <<>> THEN d ELSE After(Step(d, Head(evs)), Tail(evs))
==============================================================================
