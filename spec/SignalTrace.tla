------------------------------ MODULE SignalTrace ------------------------------
(* Validation of recorded signal indications against the design in Signal.   *)
(*                                                                           *)
(* A trace has `plans` (one per signal, conflict and phase masks as lists of *)
(* movement numbers, times in units of 10 us) and events with the step `dt`  *)
(* and the indications `S` after the step, one list per signal.  The phase   *)
(* and the time in each indication are not observable; they are carried here *)
(* and driven by what was observed.                                          *)
EXTENDS Signal, TLC, Json, IOUtils, Integers

RawTraces == ndJsonDeserialize(IOEnv.TRACE)

Range(s) == {s[i] : i \in DOMAIN s}
ToPlan(p) == [mv |-> [i \in DOMAIN p.mv |-> [c |-> Range(p.mv[i].c), am |-> p.mv[i].am, rd |-> p.mv[i].rd]],
              ph |-> [i \in DOMAIN p.ph |-> [m |-> Range(p.ph[i].m), d |-> p.ph[i].d]]]
Plans == [t \in DOMAIN RawTraces |-> [k \in DOMAIN RawTraces[t].plans |-> ToPlan(RawTraces[t].plans[k])]]

VARIABLES t,      \* trace
          l,      \* events consumed
          status, \* "ok" or why the trace cannot be followed
          cur,    \* observed: per signal the indications
          since,  \* time in the present indication
          phase,  \* current phase
          prev    \* [lamp, since] before the last event
vars == <<t, l, status, cur, since, phase, prev>>

Ev(i) == RawTraces[t].ev[i]
NSig == Len(Plans[t])
Zero(k) == [m \in Movements(Plans[t][k]) |-> 0]

Init == /\ t \in DOMAIN RawTraces
        /\ l = 0
        /\ status = "ok"
        /\ cur = [k \in 1..NSig |-> Zero(k)]
        /\ since = [k \in 1..NSig |-> Zero(k)]
        /\ phase = [k \in 1..NSig |-> FirstPhase(Plans[t][k])]
        /\ prev = [lamp |-> [k \in 1..NSig |-> Zero(k)], since |-> [k \in 1..NSig |-> Zero(k)]]

WellFormed(e) == /\ "S" \in DOMAIN e
                 /\ Len(e.S) = NSig
                 /\ \A k \in 1..NSig : /\ Len(e.S[k]) = Len(Plans[t][k].mv)
                                       /\ \A m \in DOMAIN e.S[k] : e.S[k][m] \in 0..2

Observe(e) ==
    /\ cur' = [k \in 1..NSig |-> [m \in Movements(Plans[t][k]) |-> e.S[k][m]]]
    /\ since' = [k \in 1..NSig |-> [m \in Movements(Plans[t][k]) |->
                    IF e.S[k][m] # cur[k][m] THEN e.dt ELSE since[k][m] + e.dt]]
    /\ phase' = [k \in 1..NSig |-> NextPhase(Plans[t][k], cur[k], since[k], phase[k])]
    /\ prev' = [lamp |-> cur, since |-> since]

Skip == UNCHANGED <<cur, since, phase>> /\ prev' = [lamp |-> cur, since |-> since]

Next == /\ status = "ok"
        /\ l < Len(RawTraces[t].ev)
        /\ l' = l + 1
        /\ t' = t
        /\ LET e == Ev(l + 1) IN
           IF e.e \in {"step", "xlstep"}
           THEN IF WellFormed(e) THEN Observe(e) /\ status' = "ok"
                ELSE Skip /\ status' = "malformed"
           ELSE IF e.e = "panic" THEN Skip /\ status' = "panic"
           ELSE Skip /\ status' = "ok"
Spec == Init /\ [][Next]_vars

Stepped == l > 0 /\ Ev(l).e \in {"step", "xlstep"} /\ status = "ok"

Followed == status = "ok"
C01 == Followed /\ (Stepped => \A k \in 1..NSig :
          /\ ReleasedClear(Plans[t][k], prev.lamp[k], prev.since[k], cur[k])
          /\ SafePlan(Plans[t][k]) => Separated(Plans[t][k], cur[k]))
C02 == Followed /\ (Stepped => \A k \in 1..NSig :
          LampOrder(Plans[t][k], prev.lamp[k], prev.since[k], Active(Plans[t][k], phase[k]), cur[k]))
C03 == Followed /\ (Stepped => \A k \in 1..NSig :
          PhaseFollowed(Plans[t][k], prev.lamp[k], prev.since[k], Active(Plans[t][k], phase[k]), cur[k]))

(* Coverage, counted by the runner from the printed lines. *)
Changes(a, b) == Stepped /\ \E k \in 1..NSig : \E m \in Movements(Plans[t][k]) :
                    prev.lamp[k][m] = a /\ cur[k][m] = b
===============================================================================
