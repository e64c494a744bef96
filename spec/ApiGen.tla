---------------------------------- MODULE ApiGen ----------------------------------
(***************************************************************************)
(* Generates sequences of valid calls: all of a given length on a network  *)
(* that is already there, or random longer ones from nothing (TLC in       *)
(* simulation mode).  The links come from a catalogue known to the harness *)
(* driver: 1, 2 and 3, 4 are lanes side by side, 3 and 4 continue 1 and 2, *)
(* 5 crosses 1 and 2, 6 and 7 are curved, 8 is shorter than a vehicle.     *)
(***************************************************************************)
EXTENDS Api

CONSTANTS Length, Built, Vehicles, Catalogue, Targets

VARIABLES a, h
vars == <<a, h>>

Network == [Nothing EXCEPT !.links = Catalogue, !.grouped = {1, 2, 3, 4},
                           !.conns = {<<1, 3>>, <<2, 4>>, <<3, 6>>, <<6, 7>>, <<4, 8>>, <<7, 1>>}]
Init == a = (IF Built THEN Network ELSE Nothing) /\ h = <<>>

Do(new, call) == a' = new /\ h' = Append(h, call)
Due == ~Built /\ Len(h) % 3 = 2      \* random sequences step now and then

Calls ==
    \/ \E k \in Catalogue \ a.links : Do(AddLink(a, k), <<"link", k>>)
    \/ \E k, m \in a.links : <<k, m>> \notin a.conns /\ ~Built /\ Do(Connect(a, k, m), <<"conn", k, m>>)
    \/ \E k, m \in a.links : k < m /\ (Built => k < 3 /\ m > 4) /\ Do(a, <<"conv", k, m>>)
    \/ \E p \in {<<1, 2>>, <<3, 4>>} : \E mask \in {0, 15} :
         /\ {p[1], p[2]} \subseteq a.links /\ {p[1], p[2]} \cap a.grouped = {}
         /\ Do(Group(a, {p[1], p[2]}), <<"group", p[1], mask>>)
    \/ \E k \in a.links \cap Targets : \E c \in 0..3 : Do(a, <<"control", k, c>>)
    \/ \E k \in a.links \cap Targets : \E kind \in 0..2 : a.lights < 2 /\ Do(AddLight(a), <<"light", k, kind>>)
    \/ \E v \in Vehicles \ a.used : \E k \in a.links :
         /\ \A u \in Vehicles : u < v => u \in a.used
         /\ Do(AddVehicle(a, v, k), <<"add", v, k>>)
    \/ \E v \in a.used : \E k \in a.links \cap Targets : Do(SetDest(a, v, k), <<"dest", v, k>>)
    \/ \E v \in a.used : \E on \in 0..1 : Do(Freeze(a, v, on = 1), <<"freeze", v, on>>)
    \/ \E v \in a.used : Do(Remove(a, v), <<"remove", v>>)
    \/ \E v \in a.used : Do(a, <<"lane", v>>)
    \/ Do(a, <<"adjust", 1>>)
Steps == \E n \in {1, 30} : Do(a, <<"step", n>>)
Next == Len(h) < Length /\ ((~Due /\ Calls) \/ Steps)
Spec == Init /\ [][Next]_vars

(* Every sequence of full length is printed. *)
Emit == Len(h) = Length => PrintT(<<"BEH", h>>)
Valid == a.used \subseteq Vehicles /\ Present(a) \subseteq a.used
===================================================================================
