------------------------------- MODULE SignalMC -------------------------------
(* Exhaustive model checking of the signal design over a finite space of    *)
(* plans and all sequences of step sizes.                                   *)
EXTENDS Signal, TLC

CONSTANTS NM,        \* number of movements
          Ambers,    \* amber times
          Reds,      \* clearance times
          Durs,      \* phase durations
          MaxPhases, \* phases per plan
          Steps,     \* step sizes
          OnlySafe   \* restrict to plans with mutual conflicts and safe phases

VARIABLES plan, lamp, since, phase
vars == <<plan, lamp, since, phase>>

M == 1..NM
Cap == 1 + CHOOSE x \in Ambers \cup Reds \cup Durs :
               \A y \in Ambers \cup Reds \cup Durs : y <= x
Min(a, b) == IF a < b THEN a ELSE b

Mvs == [c : SUBSET M, am : Ambers, rd : Reds]
Phs == [m : SUBSET M, d : Durs]
Plans == {[mv |-> mv, ph |-> ph] : mv \in [M -> Mvs], ph \in UNION {[1..k -> Phs] : k \in 0..MaxPhases}}

Init == /\ plan \in Plans
        /\ OnlySafe => SafePlan(plan)
        /\ lamp = [m \in M |-> Red]
        /\ since = [m \in M |-> 0]
        /\ phase = FirstPhase(plan)

Tick(dt) ==
    LET p == NextPhase(plan, lamp, since, phase)
        next == [m \in M |-> NextLamp(plan, lamp, since, Active(plan, p), m)]
    IN /\ phase' = p
       /\ lamp' = next
       /\ since' = [m \in M |-> IF next[m] # lamp[m] THEN dt ELSE Min(since[m] + dt, Cap + 1)]
       /\ UNCHANGED plan

Next == \E dt \in Steps : Tick(dt)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ lamp \in [M -> {Red, Amber, Green}]
          /\ phase \in 0..Len(plan.ph)
NoConflictReleased == SafePlan(plan) => Separated(plan, lamp)
NoPhasesStaysRed == plan.ph = <<>> => \A m \in M : lamp[m] = Red

C01Step == [][ReleasedClear(plan, lamp, since, lamp')]_vars
C02Step == [][LampOrder(plan, lamp, since, Active(plan, phase'), lamp')]_vars
C03Step == [][PhaseFollowed(plan, lamp, since, Active(plan, phase'), lamp')]_vars

(* Progress: with safe plans every phase comes round for ever, and every    *)
(* movement of every phase turns green for ever (a movement green already   *)
(* stays green).  The single-movement self conflict is excluded by SafePlan.*)
Progress == SafePlan(plan) =>
    \A p \in 1..MaxPhases : p <= Len(plan.ph) => []<>(phase = p)
Served == SafePlan(plan) =>
    \A p \in 1..MaxPhases : \A m \in M :
        p <= Len(plan.ph) /\ m \in plan.ph[p].m => []<>(lamp[m] = Green)
===============================================================================
