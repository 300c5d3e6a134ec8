------------------------------- MODULE MC_Pipe -------------------------------
(***************************************************************************)
(* Writing in two passes: the first one measures, the second one writes    *)
(* what the header has announced. Checks for all configurations, contents  *)
(* of bounded length and ways of splitting them that what is announced is  *)
(* written, and that it is read as it has been written.                    *)
(***************************************************************************)
EXTENDS Pipe, TLC, Json

CONSTANTS MaxLen, RecordSizes, SameChunks, Export

VARIABLES cfg, x, rec, phase, chunk, announced, name

vars == <<cfg, x, rec, phase, chunk, announced, name>>

Cfgs == {c \in [comp : Comps, level : Levels, enc : Encs, sig : Sigs, rs : RecordSizes, tape : BOOLEAN, cache : {"memory", "file"}] : Supported(c)}

\* Names may end with what looks like a suffix
NamesOf(c) == {<<"n">>, <<"n">> \o Suffixes(c)}

None == [name |-> <<>>, size |-> 0, logical |-> 0, sig |-> <<>>, data |-> Failed]

Init ==
  /\ cfg \in Cfgs
  /\ x = <<>>
  /\ name \in NamesOf(cfg)
  /\ rec = None /\ announced = 0 /\ phase = "start" /\ chunk = 0
  /\ (Export /\ name = <<"n">>) => PrintT(<<"CFG", ToJson(cfg)>>)

Extend == phase = "start" /\ Len(x) < MaxLen /\ x' = Append(x, Len(x) + 1) /\ UNCHANGED <<cfg, rec, phase, chunk, announced, name>>

\* The first pass
Measure(n) ==
  /\ phase = "start"
  /\ phase' = "measured" /\ chunk' = n
  /\ announced' = IF x = <<>> THEN 0 ELSE Length(cfg, x, n)
  /\ UNCHANGED <<cfg, x, rec, name>>

\* The second pass
Write(n) ==
  /\ phase = "measured"
  /\ SameChunks => n = chunk
  /\ rec' = Record(cfg, name, x, n)
  /\ phase' = "written"
  /\ UNCHANGED <<cfg, x, chunk, announced, name>>

Next == Extend \/ \E n \in 1..2 : Measure(n) \/ Write(n)

Spec == Init /\ [][Next]_vars

Announced == phase = "written" => rec.size = announced
RoundTrip == phase = "written" => Reading(cfg, rec) = x /\ Verified(cfg, rec, x) /\ rec.logical = Len(x)
NameKept == phase = "written" => NameOf(cfg, rec) = name
==============================================================================
