-------------------------------- MODULE ClearTrace --------------------------------
(***************************************************************************)
(* Validates that a junction left to itself clears: when vehicles are no   *)
(* longer added, all of them leave in a time proportional to their number. *)
(* The runs record the calls, the vehicles at times and the final drain.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS Base, PerVehicle   \* 10 us
VARIABLES t, l, s
vars == <<t, l, s>>
Key == <<t, l>>
Evs == Traces[t].ev

Ids(e) == {e.V[i][1] : i \in DOMAIN e.V}
(* s.v vehicles present, s.late those still present when they should not be *)
Init == t \in DOMAIN Traces /\ l = 0 /\ s = [status |-> "ok", v |-> {}, late |-> {}]
Next ==
    /\ s.status = "ok" /\ l < Len(Evs)
    /\ l' = l + 1 /\ t' = t
    /\ LET e == Evs[l + 1] IN
       s' = CASE e.e = "add" -> [s EXCEPT !.v = @ \cup {e.v}]
              [] e.e = "run" -> [s EXCEPT !.v = Ids(e), !.status = IF Ids(e) \subseteq s.v THEN "ok" ELSE "malformed"]
              [] e.e = "drain" -> [s EXCEPT !.v = Ids(e),
                                            !.late = IF e.n * e.dt > Base + PerVehicle * Cardinality(s.v) THEN s.v ELSE Ids(e)]
              [] e.e = "panic" -> [s EXCEPT !.status = "panic"]
              [] OTHER -> s
Spec == Init /\ [][Next]_vars

C09 == s.status = "ok" /\ s.late = {}
====================================================================================
