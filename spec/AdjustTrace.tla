-------------------------------- MODULE AdjustTrace --------------------------------
(***************************************************************************)
(* Desired speeds.  Vehicles drive freely, each on a road of its own; now  *)
(* and then the desired speeds of those present are drawn anew.  Per       *)
(* vehicle the model keeps the spread it was last drawn with (0: exactly   *)
(* the limit) and, once it has been seen settled, its share of the limit   *)
(* in thousandths, which holds until the next draw.  Time spent frozen     *)
(* does not count towards settling.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Low, High,      \* bounds of the share, thousandths
          Tol,            \* tolerance of a settled speed, thousandths of the limit
          Settling,       \* time after which a speed has settled, 10 us
          Start, Finish,  \* stretches at both ends of a link where it is changing, mm
          Wide, TooWide,  \* spreads between which that many vehicles cannot by
          Many            \* chance all draw the same (thousandths)

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, s
vars == <<t, l, s>>
Key == <<t, l>>
Evs == Traces[t].ev
L == Traces[t].L
Last(k) == Traces[t].out[k] = <<>>

First(k) == \A j \in DOMAIN Traces[t].out : \A i \in DOMAIN Traces[t].out[j] : Traces[t].out[j][i] # k

Share(r) == (r[4] * 1000) \div L[r[2]][2]
At(x, y) == x - y <= Tol /\ y - x <= Tol
(* Far enough from where the limit changes. *)
Steady(r) == /\ r[3] >= Start \/ First(r[2])
             /\ Last(r[2]) \/ r[3] <= L[r[2]][1] - Finish
Row(e, v) == LET i == CHOOSE j \in DOMAIN e.V : e.V[j][1] = v IN e.V[i]
Ids(e) == {e.V[i][1] : i \in DOMAIN e.V}

Held(e) == {e.F[i] : i \in DOMAIN e.F}

Fresh == [spread |-> 0, age |-> 0, share |-> 0]
Init == t \in DOMAIN Traces /\ l = 0 /\ s = [veh |-> <<>>, status |-> "ok"]
Settled(e, v, q) == q.age >= Settling /\ Steady(Row(e, v))
Next ==
    /\ s.status = "ok" /\ l < Len(Evs)
    /\ l' = l + 1 /\ t' = t
    /\ LET e == Evs[l + 1] IN
       s' = CASE e.e = "add" -> [s EXCEPT !.veh = (e.v :> Fresh) @@ @]
              [] e.e = "adjust" -> [s EXCEPT !.veh = [v \in DOMAIN @ |-> [spread |-> e.sd, age |-> 0, share |-> 0]]]
              [] e.e = "run" ->
                   [s EXCEPT !.veh = [v \in DOMAIN @ \cap Ids(e) |->
                        LET q == [@[v] EXCEPT !.age = IF v \in Held(e) THEN 0 ELSE @ + e.n * e.dt]
                        IN IF q.share = 0 /\ Settled(e, v, q) THEN [q EXCEPT !.share = Share(Row(e, v))] ELSE q]]
              [] e.e \in {"panic", "hang"} -> [s EXCEPT !.status = e.e]
              [] OTHER -> s
Spec == Init /\ [][Next]_vars

E == Evs[l]
Seen == {v \in DOMAIN s.veh : Settled(E, v, s.veh[v])}
Shares(sd) == {Share(Row(E, v)) : v \in {u \in Seen : s.veh[u].spread = sd}}
C29 ==
    /\ s.status = "ok"
    /\ (l > 0 /\ E.e = "run") =>
         /\ \A v \in Seen :
              LET x == Share(Row(E, v)) q == s.veh[v]
              IN /\ q.spread = 0 => At(x, 1000)
                 /\ x >= Low - Tol /\ x <= High + Tol
                 /\ q.share # 0 => At(x, q.share)
         /\ \A sd \in {s.veh[v].spread : v \in Seen} :
              (sd >= Wide /\ sd <= TooWide /\ Cardinality({v \in Seen : s.veh[v].spread = sd}) >= Many) =>
                 \E x, y \in Shares(sd) : ~At(x, y)
====================================================================================
