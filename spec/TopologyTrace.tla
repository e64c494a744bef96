----------------------------- MODULE TopologyTrace -----------------------------
(***************************************************************************)
(* Validates recorded constructions of networks: after any prefix of the   *)
(* building calls the queries report what Topology prescribes.             *)
(* Events: "link" (the length of the curve, how far the reported length   *)
(* may be off, the limit), "conn", "group", "net" (everything the crate    *)
(* reports), "panic".                                                      *)
(***************************************************************************)
EXTENDS Topology, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, g, status
vars == <<t, l, g, status>>
Key == <<t, l>>

Ev == Traces[t].ev[l + 1]
Init == t \in DOMAIN Traces /\ l = 0 /\ g = EmptyNet /\ status = "ok"
Next ==
    /\ status = "ok" /\ l < Len(Traces[t].ev)
    /\ l' = l + 1 /\ t' = t
    /\ g' = CASE Ev.e = "link" -> AddLink(g, <<Ev.len, Ev.tol>>, Ev.lim)
              [] Ev.e = "conn" -> AddConn(g, Ev.a, Ev.b)
              [] Ev.e = "group" -> AddGroup(g, Ev.links, Ev.mask)
              [] OTHER -> g
    /\ status' = IF Ev.e = "panic" THEN "panic" ELSE "ok"
Spec == Init /\ [][Next]_vars

Asked == l > 0 /\ Traces[t].ev[l].e = "net"
Net == Traces[t].ev[l].net
Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)
Is(s, S) == NoDup(s) /\ Range(s) = S

(* C20: the list of routes. *)
C20 == status = "ok" /\ (Asked => Is(Net.routes, Routes(g)))

(* C21: lanes. *)
C21 == status = "ok" /\ (Asked => LET R == LaneReach(g) IN \A a \in Links(g) :
    /\ Is(Net.links[a].lc, LaneChanges(g, a))
    /\ Is(Net.links[a].reach, R[a])
    /\ Is(Net.links[a].from, {b \in Links(g) : a \in R[b]}))

(* C28: length, limit, cost, connections, listing. *)
C28 == status = "ok" /\ (Asked =>
    /\ Len(Net.links) = Len(g.links)
    /\ Is(Net.iter, Links(g))
    /\ \A a \in Links(g) :
         LET x == Net.links[a]
             d == g.links[a]
         IN /\ x.len - d[1][1] <= d[1][2] /\ d[1][1] - x.len <= d[1][2]
            /\ x.speed = d[2]
            /\ x.cost >= Cost(x.len - 1, d[2]) /\ x.cost <= Cost(x.len + 1, d[2])
            /\ x.ins = Ins(g, a) /\ x.outs = Outs(g, a))
================================================================================
