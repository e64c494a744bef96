-------------------------------- MODULE Topology --------------------------------
(***************************************************************************)
(* The road network as declared by the calls that build it, and what the   *)
(* query calls must report about it.                                       *)
(*                                                                         *)
(* A network g is a record                                                 *)
(*   links   sequence of <<length mm, limit mm/s>>                         *)
(*   conns   sequence of <<from, to>> in the order of declaration          *)
(*   groups  sequence of [links: lanes from left to right, mask: sequence  *)
(*           of 0/1, two per lane: to the left, to the right]              *)
(* A link belongs to at most one group.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyNet == [links |-> <<>>, conns |-> <<>>, groups |-> <<>>]
Links(g) == DOMAIN g.links

AddLink(g, len, lim) == [g EXCEPT !.links = Append(@, <<len, lim>>)]
AddConn(g, a, b) == [g EXCEPT !.conns = Append(@, <<a, b>>)]
AddGroup(g, ls, mask) == [g EXCEPT !.groups = Append(@, [links |-> ls, mask |-> mask])]

(* Predecessors and successors, once per connection and in order. *)
Outs(g, a) == LET S == SelectSeq(g.conns, LAMBDA c : c[1] = a) IN [i \in DOMAIN S |-> S[i][2]]
Ins(g, b) == LET S == SelectSeq(g.conns, LAMBDA c : c[2] = b) IN [i \in DOMAIN S |-> S[i][1]]

(* Permitted single lane changes <<from, to>>. *)
GroupChanges(gr) ==
    {<<gr.links[i], gr.links[i + 1]>> : i \in {i \in 1..(Len(gr.links) - 1) : gr.mask[2 * i] = 1}}
    \cup {<<gr.links[i + 1], gr.links[i]>> : i \in {i \in 1..(Len(gr.links) - 1) : gr.mask[2 * i + 1] = 1}}
Changes(g) == UNION {GroupChanges(g.groups[k]) : k \in DOMAIN g.groups}
LaneChanges(g, a) == {b \in Links(g) : <<a, b>> \in Changes(g)}

(* Everything reachable from a by the steps in R (a relation). *)
Closure(S, R) ==
    LET T == TLCEval([a \in S |-> {p[2] : p \in {p \in R : p[1] = a}}])
        F[k \in 0..Cardinality(S)] ==
            IF k = 0 THEN [a \in S |-> {a}]
            ELSE LET P == TLCEval(F[k - 1])
                 IN [a \in S |-> P[a] \cup UNION {T[m] : m \in P[a]}]
    IN TLCEval(F[Cardinality(S)])

LaneReach(g) == Closure(Links(g), Changes(g))
LanesFrom(g, a) == {b \in Links(g) : a \in LaneReach(g)[b]}

(* Entries and exits of the network, and the pairs connected by it. *)
Entries(g) == {a \in Links(g) : Len(Ins(g, a)) = 0}
Exits(g) == {a \in Links(g) : Len(Outs(g, a)) = 0}
Routes(g) ==
    LET R == Closure(Links(g), Changes(g) \cup {g.conns[i] : i \in DOMAIN g.conns})
    IN {<<a, b>> \in Entries(g) \X Exits(g) : b \in R[a]}

(* Time to traverse a link at its limit, in whole tenths of a second. *)
Cost(len, lim) == (10 * len) \div lim
=================================================================================
