----------------------------------- MODULE Api -----------------------------------
(***************************************************************************)
(* The calls of the simulation as a state machine, without the driving: a  *)
(* vehicle that has a destination may depart in any step.  States are      *)
(* records                                                                 *)
(*   links     number of links                                             *)
(*   conns     connections, as pairs                                       *)
(*   grouped   links that are in a group                                   *)
(*   veh       vehicles present -> [frozen, dest]                          *)
(*   used      vehicles ever added                                         *)
(*   lights    number of signals                                           *)
(*   frames    steps made                                                  *)
(* Used to generate sequences of calls (ApiGen) and to validate what the   *)
(* implementation did with them (ApiTrace).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [links |-> {}, conns |-> {}, grouped |-> {}, veh |-> <<>>, used |-> {}, lights |-> 0, frames |-> 0]
Present(a) == DOMAIN a.veh

AddLink(a, k) == [a EXCEPT !.links = @ \cup {k}]
Connect(a, k, m) == [a EXCEPT !.conns = @ \cup {<<k, m>>}]
Group(a, ks) == [a EXCEPT !.grouped = @ \cup ks]
AddLight(a) == [a EXCEPT !.lights = @ + 1]
AddVehicle(a, v, k) == [a EXCEPT !.veh = (v :> [frozen |-> FALSE, dest |-> 0, link |-> k]) @@ @, !.used = @ \cup {v}]
Remove(a, v) == [a EXCEPT !.veh = [u \in DOMAIN @ \ {v} |-> @[u]]]
Freeze(a, v, on) == IF v \in Present(a) THEN [a EXCEPT !.veh[v].frozen = on] ELSE a
SetDest(a, v, k) == IF v \in Present(a) THEN [a EXCEPT !.veh[v].dest = k] ELSE a
(* Some steps, during which the vehicles in gone departed. *)
Departed(a, gone, n) == [a EXCEPT !.veh = [u \in DOMAIN @ \ gone |-> @[u]], !.frames = @ + n]
MayDepart(a, v) == a.veh[v].dest # 0
==================================================================================
