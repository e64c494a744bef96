--------------------------------- MODULE Routing ---------------------------------
(***************************************************************************)
(* What a vehicle's way through the network may look like: the cheapest    *)
(* sequence of links to its destination where there are no lanes to choose *)
(* from, and lane changes only where they are permitted and needed.        *)
(*                                                                         *)
(* Networks are those of module Topology.  The cost of a route is the time *)
(* it takes at the limit, in whole tenths of a second per link, counting   *)
(* every link that is left.                                                *)
(***************************************************************************)
EXTENDS Topology

Unreachable == 1000000

(* The least cost of getting from any link to any other. *)
Costs(g) ==
    LET A == Links(g)
        c == TLCEval([a \in A |-> Cost(g.links[a][1], g.links[a][2])])
        succ == TLCEval([a \in A |-> {g.conns[i][2] : i \in {j \in DOMAIN g.conns : g.conns[j][1] = a}}])
        least(S) == CHOOSE x \in S : \A y \in S : x <= y
        F[k \in 0..Cardinality(A)] ==
            IF k = 0 THEN [p \in A \X A |-> IF p[1] = p[2] THEN 0 ELSE Unreachable]
            ELSE LET P == TLCEval(F[k - 1])
                 IN [p \in A \X A |-> least({P[p], Unreachable} \cup {c[p[1]] + P[<<b, p[2]>>] : b \in succ[p[1]]})]
    IN [c |-> c, succ |-> succ, D |-> TLCEval(F[Cardinality(A)])]

(* Everything the questions below need, computed once per network. *)
Ways(g) ==
    LET A == Links(g)
        C == {g.conns[i] : i \in DOMAIN g.conns}
        ch == Changes(g)
    IN Costs(g) @@ [
        n |-> Len(g.links), L |-> g.links,
        \* lanes directly permitted from each link
        ch |-> [a \in A |-> {b \in A : <<a, b>> \in ch}],
        \* destinations reached without and with lane changes
        stay |-> TLCEval(Closure(A, C)),
        all |-> TLCEval(Closure(A, C \cup ch))]

(* Going from a on to b, both connected, is right for destination d. *)
Cheapest(W, a, b, d) ==
    /\ a # d
    /\ W.D[<<a, d>>] < Unreachable => W.c[a] + W.D[<<b, d>>] = W.D[<<a, d>>]

(* Changing from lane a to lane b is right for destination d. *)
MayChange(W, a, b) == b \in W.ch[a]
NeedsChange(W, a, d) == d \notin W.stay[a]

(* What can happen to the link of a vehicle within one step: nothing, one    *)
(* lane change, one connection, or the former followed by the latter.        *)
LaneStep(W, a, b) == IF b = a \/ b \in W.succ[a] THEN 0
                     ELSE IF b \in W.ch[a] THEN b
                     ELSE IF \E x \in W.ch[a] : b \in W.succ[x]
                     THEN CHOOSE x \in W.ch[a] : b \in W.succ[x]
                     ELSE -1
==================================================================================
