------------------------------- MODULE TopologyMC -------------------------------
(***************************************************************************)
(* Every network that can be built from MaxLinks links, MaxConns           *)
(* connections and one group of lanes: consistency of the query results    *)
(* among each other.                                                       *)
(***************************************************************************)
EXTENDS Topology
CONSTANTS MaxLinks, MaxConns, MaxLanes

VARIABLE g
Init == g = EmptyNet
Masks(n) == [1..(2 * n) -> {0, 1}]
Free == Links(g) \ UNION {{g.groups[k].links[i] : i \in DOMAIN g.groups[k].links} : k \in DOMAIN g.groups}
Next == \/ Len(g.links) < MaxLinks /\ g' = AddLink(g, 100000, 10000)
        \/ Len(g.conns) < MaxConns /\ \E a, b \in Links(g) : g' = AddConn(g, a, b)
        \/ \E n \in 2..MaxLanes :
             /\ n <= Len(g.links) /\ Cardinality(Free) = Len(g.links)
             /\ \E m \in Masks(n) : g' = AddGroup(g, [i \in 1..n |-> i], m)
Spec == Init /\ [][Next]_g

LR == LaneReach(g)
(* Reachable-from is the converse of reachable; both contain the link itself *)
(* and every direct change, stay within the group, and cover an interval of *)
(* lanes.                                                                   *)
Lanes == \A a \in Links(g) :
    /\ a \in LR[a] /\ LaneChanges(g, a) \subseteq LR[a]
    /\ \A b \in LR[a] : LR[b] \subseteq LR[a]
    /\ \A b \in Links(g) : (b \in LR[a]) <=> (a \in LanesFrom(g, b))
    /\ \A k \in DOMAIN g.groups : LET gr == g.groups[k] IN
         a \in {gr.links[i] : i \in DOMAIN gr.links} =>
            \A i, j, m \in DOMAIN gr.links : (i < j /\ j < m /\ gr.links[i] \in LR[a] /\ gr.links[m] \in LR[a]) => gr.links[j] \in LR[a]
(* One more connection never takes a route away unless it uses up its end. *)
Monotone == [][\A r \in Routes(g) : (r[1] \in Entries(g') /\ r[2] \in Exits(g')) => r \in Routes(g')]_g
(* An isolated link is a route of its own. *)
Isolated == \A a \in Entries(g) \cap Exits(g) : <<a, a>> \in Routes(g)
(* Connections are reported from both ends. *)
Both == \A a, b \in Links(g) :
    Len(SelectSeq(Outs(g, a), LAMBDA x : x = b)) = Len(SelectSeq(Ins(g, b), LAMBDA x : x = a))
=================================================================================
