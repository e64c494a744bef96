-------------------------------- MODULE Signal --------------------------------
(***************************************************************************)
(* Traffic signals: the design.                                            *)
(*                                                                         *)
(* A plan is a record                                                      *)
(*    mv : sequence of movements [c |-> set of movements it conflicts      *)
(*         with, am |-> amber time, rd |-> clearance time]                 *)
(*    ph : sequence of phases [m |-> set of movements, d |-> duration]     *)
(* Time is counted in integer units.                                       *)
(*                                                                         *)
(* Each step every movement decides on the same snapshot:                  *)
(*   1. the phase advances if it is complete,                              *)
(*   2. movements of the (new) phase are active, all others are not,       *)
(*   3. the indications change by the table `NextLamp`.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Red   == 0
Amber == 1
Green == 2

Movements(plan) == 1..Len(plan.mv)

(* The movements that declare a conflict with m. *)
Declarers(plan, m) == {o \in Movements(plan) : m \in plan.mv[o].c}

(* m may turn green: every declarer is red and has been for longer than its *)
(* own clearance time.                                                      *)
Clear(plan, lamp, since, m) ==
    \A o \in Declarers(plan, m) : lamp[o] = Red /\ since[o] > plan.mv[o].rd

PhaseDone(plan, lamp, since, p) ==
    \A m \in plan.ph[p].m \cap Movements(plan) :
        lamp[m] = Green /\ since[m] >= plan.ph[p].d

(* Phases are served cyclically; a plan without phases has none. *)
NextPhase(plan, lamp, since, p) ==
    IF plan.ph = <<>> THEN 0
    ELSE IF PhaseDone(plan, lamp, since, p) THEN (p % Len(plan.ph)) + 1 ELSE p

Active(plan, p) == IF p = 0 THEN {} ELSE plan.ph[p].m

FirstPhase(plan) == IF plan.ph = <<>> THEN 0 ELSE 1

NextLamp(plan, lamp, since, active, m) ==
    CASE lamp[m] = Green /\ m \notin active -> Amber
      [] lamp[m] = Amber /\ m \in active -> Green
      [] lamp[m] = Amber /\ m \notin active /\ since[m] >= plan.mv[m].am -> Red
      [] lamp[m] = Red /\ m \in active /\ Clear(plan, lamp, since, m) -> Green
      [] OTHER -> lamp[m]

(***************************************************************************)
(* What a plan promises.                                                   *)
(***************************************************************************)
Mutual(plan) == \A m, o \in Movements(plan) :
                    m \in plan.mv[o].c => o \in plan.mv[m].c
PhasesSafe(plan) == \A p \in 1..Len(plan.ph) : \A m, o \in plan.ph[p].m \cap Movements(plan) :
                        m # o => m \notin plan.mv[o].c
SafePlan(plan) == Mutual(plan) /\ PhasesSafe(plan)

(* Two conflicting movements are never both released (green or amber). *)
Separated(plan, lamp) ==
    \A m, o \in Movements(plan) :
        m # o /\ m \in plan.mv[o].c => lamp[m] = Red \/ lamp[o] = Red

(***************************************************************************)
(* The same, as relations between two consecutive observations.  These are *)
(* the properties checked both of the design and of the implementation.    *)
(***************************************************************************)
(* C01 *)
ReleasedClear(plan, lamp, since, lampN) ==
    \A m \in Movements(plan) :
        lamp[m] = Red /\ lampN[m] = Green => Clear(plan, lamp, since, m)

(* C02 *)
LampOrder(plan, lamp, since, active, lampN) ==
    \A m \in Movements(plan) :
        /\ lamp[m] = Green => lampN[m] \in {Green, Amber}
        /\ lamp[m] = Red => lampN[m] \in {Red, Green}
        /\ lamp[m] = Amber /\ lampN[m] = Red => since[m] >= plan.mv[m].am
        /\ lamp[m] = Amber /\ m \notin active /\ since[m] >= plan.mv[m].am => lampN[m] = Red
        /\ lamp[m] = Amber /\ m \in active => lampN[m] = Green

(* C03 *)
PhaseFollowed(plan, lamp, since, active, lampN) ==
    \A m \in Movements(plan) :
        IF m \in active
        THEN /\ lamp[m] # Red => lampN[m] = Green
             /\ lamp[m] = Red /\ Clear(plan, lamp, since, m) => lampN[m] = Green
        ELSE /\ lamp[m] = Green => lampN[m] # Green
             /\ lamp[m] # Green => lampN[m] # Green
===============================================================================
