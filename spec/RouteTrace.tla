------------------------------- MODULE RouteTrace -------------------------------
(***************************************************************************)
(* Validates the way vehicles take through networks with and without lanes.*)
(* Header: L (length, limit), out, groups (lanes, permissions), lone (1 if *)
(* there is one vehicle at a time and nothing in its way).                 *)
(***************************************************************************)
EXTENDS Routing, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT PlanTime       \* a vehicle has planned its route after this time (10 us)

VARIABLES t, l, W, s
vars == <<t, l, W, s>>
Key == <<t, l>>
Shown == [t |-> t, l |-> l, s |-> s]

Evs == Traces[t].ev
Ev == Evs[l + 1]
Range(q) == {q[i] : i \in DOMAIN q}

RECURSIVE Flat(_, _)
Flat(out, a) == IF a > Len(out) THEN <<>>
                ELSE [i \in DOMAIN out[a] |-> <<a, out[a][i]>>] \o Flat(out, a + 1)
NetOf(h) == [links |-> h.L, conns |-> Flat(h.out, 1), groups |-> h.groups]

(* s.at[v] = <<link, position>>, s.d destination, s.age time since it was set, *)
(* s.sure vehicles that were at the start of a link with a way when it was     *)
Row(e, v) == e.V[CHOOSE i \in DOMAIN e.V : e.V[i][1] = v]
Ids(e) == {e.V[i][1] : i \in DOMAIN e.V}

Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ W = TLCEval(Ways(NetOf(Traces[t])))
        /\ s = [status |-> "ok", at |-> <<>>, d |-> <<>>, age |-> <<>>, sure |-> {}, last |-> [e |-> "none"]]
Next ==
    /\ s.status = "ok" /\ l < Len(Evs)
    /\ l' = l + 1 /\ t' = t /\ W' = W
    /\ LET e == Ev IN
       s' = CASE e.e = "step" ->
                   LET ok == \A i \in DOMAIN e.V : e.V[i][2] \in 1..W.n IN
                   [status |-> IF ok /\ Ids(e) \subseteq DOMAIN s.at THEN "ok" ELSE "malformed",
                    at |-> [v \in Ids(e) |-> <<Row(e, v)[2], Row(e, v)[3]>>],
                    d |-> [v \in Ids(e) \cap DOMAIN s.d |-> s.d[v]],
                    age |-> [v \in Ids(e) \cap DOMAIN s.age |-> s.age[v] + e.dt],
                    sure |-> s.sure,
                    last |-> [e |-> "step", at |-> s.at, d |-> s.d, age |-> s.age]]
              [] e.e = "add" -> [s EXCEPT !.at = (e.v :> <<e.link, 0>>) @@ @, !.d = (e.v :> 0) @@ @,
                                          !.age = (e.v :> 0) @@ @, !.last = [e |-> "add"]]
              [] e.e = "dest" -> [s EXCEPT !.d[e.v] = e.link, !.age[e.v] = 0,
                                           !.sure = IF s.at[e.v][2] = 0 /\ e.link \in W.all[s.at[e.v][1]]
                                                    THEN @ \cup {e.v} ELSE @ \ {e.v},
                                           !.last = [e |-> "dest"]]
              [] e.e = "lane" -> [s EXCEPT !.at[e.v] = <<e.link, e.row[3]>>, !.age[e.v] = 0, !.sure = @ \ {e.v},
                                           !.last = [e |-> "lane"]]
              [] e.e = "remove" -> [s EXCEPT !.at = [v \in Ids(e) |-> s.at[v]], !.d = [v \in Ids(e) |-> s.d[v]],
                                             !.age = [v \in Ids(e) |-> s.age[v]], !.last = [e |-> "remove"]]
              [] e.e = "drain" -> [s EXCEPT !.at = [v \in Ids(e) |-> <<Row(e, v)[2], Row(e, v)[3]>>],
                                            !.d = [v \in Ids(e) |-> s.d[v]], !.age = [v \in Ids(e) |-> s.age[v]],
                                            !.last = [e |-> "drain"]]
              [] e.e = "panic" -> [s EXCEPT !.status = "panic"]
              [] OTHER -> [s EXCEPT !.last = [e |-> "none"]]
Spec == Init /\ [][Next]_vars

Ok == s.status = "ok"
Stepped == s.last.e = "step"
last == s.last
Both == DOMAIN s.at \cap DOMAIN last.at
From(v) == last.at[v][1]
To(v) == s.at[v][1]
Lone == Traces[t].lone = 1

(* A vehicle alone arrives: after ample time without steps recorded nobody  *)
(* is left who has, or had from the start, a way to the destination.        *)
Arrived == last.e = "drain" => \A v \in DOMAIN s.at : Lone => ~(v \in s.sure \/ (s.d[v] # 0 /\ s.d[v] \in W.all[s.at[v][1]]))

(* C17: every link taken is on a cheapest route to the destination. *)
C17 == Ok /\ Arrived /\ (Stepped => \A v \in Both :
    /\ (From(v) # To(v) /\ last.d[v] # 0 /\ last.age[v] >= PlanTime) => Cheapest(W, From(v), To(v), last.d[v]))

(* C15: nobody moves but along connections and to neighbouring lanes. *)
C15 == Ok /\ (Stepped => \A v \in Both : LaneStep(W, From(v), To(v)) # -1)

(* C24: lane changes. *)
C24 == Ok /\ Arrived /\ (Stepped => \A v \in Both :
    LET x == LaneStep(W, From(v), To(v)) IN
    /\ x # -1
    /\ x # 0 => last.d[v] # 0 /\ NeedsChange(W, From(v), last.d[v]))
=================================================================================
