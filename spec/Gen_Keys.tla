------------------------------ MODULE Gen_Keys ------------------------------
(* Generates calls on key pairs: first the pairs, then the identities, then *)
(* anything. Slow is how often private halves are parsed after that.        *)
EXTENDS Keys, TLC, Json

CONSTANTS Pairs, Steps, Passwords, Msgs, Ks, Slow

VARIABLES s, hist, slow

Calls ==
  IF Len(hist) < Pairs THEN {Gen(f, w) : f \in Ks, w \in Passwords}
  ELSE IF Len(hist) < 2 * Pairs THEN {Parse(Len(hist) - Pairs + 1, s.pairs[Len(hist) - Pairs + 1].w)}
  ELSE IF slow < Slow /\ Len(hist) % 2 = 0 THEN {Parse(i, w) : i \in 1..Pairs, w \in Passwords}
  ELSE IF Len(s.things) < 2 \/ Len(hist) % 5 = 1 THEN {Make(i, m, how) : i \in 1..Pairs, m \in Msgs, how \in Ways}
  ELSE {Open(i, j, m) : i \in 1..Len(s.things), j \in 1..Pairs, m \in Msgs}

Init == s = Start /\ hist = <<>> /\ slow = 0

Next ==
  /\ Len(hist) < Steps
  /\ \E o \in Calls :
       /\ Possible(s, o)
       /\ (o.op = "open" /\ IsEnc(s, o.j) => o.m = 1)
       /\ s' = Do(s, o)
       /\ hist' = Append(hist, o)
       /\ slow' = IF o.op = "parse" /\ Len(hist) >= 2 * Pairs THEN slow + 1 ELSE slow
  /\ (Len(hist') = Steps => PrintT(<<"HIST", ToJson(hist')>>))
==============================================================================
