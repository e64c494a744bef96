-------------------------------- MODULE Traffic --------------------------------
(***************************************************************************)
(* Traffic on a network of single-lane links: the rules by which vehicles  *)
(* follow each other, keep to limits, commit to links, queue, give way,    *)
(* adopt routes and leave.                                                 *)
(*                                                                         *)
(* The rules are pure operators over                                       *)
(*   N  a network (see Network below),                                     *)
(*   c  the control at the start of every link:                            *)
(*      <<0 open | 1 give way | 2 closed, distance, full stop?, priority>> *)
(*   W  the situation: vehicle -> record (see View).                       *)
(*                                                                         *)
(* They validate recorded runs of the implementation (TrafficTrace) with   *)
(* tolerances for the rounding; the terms of the driver model are executed *)
(* and model checked as well (FollowMC), as is the order of entering       *)
(* without distances and times (JunctionMC).  Quantities that              *)
(* cannot be observed are intervals: elo..ehi links ahead surely/possibly  *)
(* committed to, qlo/qhi the tick at which the vehicle surely/possibly     *)
(* joined the queue (0: did not), lo..hi the acceleration in force.  With  *)
(* exact knowledge the two ends coincide.                                  *)
(***************************************************************************)
EXTENDS DriverModel, FiniteSets, TLC

CONSTANTS TolPos,   \* mm
          TolVel,   \* mm/s
          TolAcc,   \* mm/s^2, rounding of the fixed-point terms
          TolZone,  \* mm, sampling of conflict areas
          TolTime   \* ms

Range(s) == {s[i] : i \in DOMAIN s}

(***************************************************************************)
(* Networks.  raw = [L |-> <<<<length, limit>>, ..>>, out |-> successors,  *)
(* K |-> <<<<a, b, a_min, a_max, b_min, b_max>>, ..>> conflict areas].     *)
(* There is at most one simple route between any two links.                *)
(***************************************************************************)
Horizon == 8
PlanDist == 200000

(* These are recursive functions rather than RECURSIVE operators because     *)
(* TLC evaluates constants built from the latter again and again.            *)

(* Links reachable from each link (Warshall). *)
Reachability(raw) ==
    LET A == 1..Len(raw.L)
        R[k \in 0..Len(raw.L)] ==
            IF k = 0 THEN [a \in A |-> {a} \cup Range(raw.out[a])]
            ELSE LET P == TLCEval(R[k - 1])
                 IN [a \in A |-> IF k \in P[a] THEN P[a] \cup P[k] ELSE P[a]]
    IN R[Len(raw.L)]

(* Cumulated lengths of the links of a path from its i-th link on. *)
Lengths(raw, p, i) ==
    LET C[k \in (i - 1)..Len(p)] == IF k < i THEN 0 ELSE C[k - 1] + raw.L[p[k]][1]
    IN TLCEval(C)

(* The path of a vehicle at link a heading for d (0: nowhere). *)
PathFrom(raw, hop, a, d) ==
    LET F[k \in 1..Horizon] ==
            IF k = 1 THEN <<a>>
            ELSE LET p == F[k - 1]
                     b == IF d = 0 THEN 0 ELSE hop[p[Len(p)]][d]
                     \* the plan reaches so far beyond the present link
                     far == k > 2 /\ Lengths(raw, p, 2)[Len(p) - 1] >= PlanDist
                 IN IF b = 0 \/ far THEN p ELSE Append(p, b)
    IN F[Horizon]

Network(raw) ==
    LET n == Len(raw.L)
        A == 1..n
        reach == TLCEval(Reachability(raw))
        hop == TLCEval([a \in A |-> [d \in A |->
                  LET S == {b \in Range(raw.out[a]) : d \in reach[b]}
                  IN IF a = d \/ S = {} THEN 0 ELSE CHOOSE b \in S : TRUE]])
        path == TLCEval([a \in A |-> [d \in 0..n |-> PathFrom(raw, hop, a, d)]])
        \* look-ahead over the links in between: the furthest line that counts
        seen(p, k, slack) == \A j \in 2..k : Lengths(raw, p, j)[k] < LookAhead * raw.L[p[j]][2] + slack
        furthest(p, slack) == LET S == {k \in 1..Len(p) : seen(p, k, slack)}
                              IN CHOOSE k \in S : \A j \in S : j <= k
    IN TLCEval([L |-> raw.L, n |-> n, reach |-> reach,
        outs |-> [a \in A |-> Range(raw.out[a])],
        ins |-> [b \in A |-> {a \in A : b \in Range(raw.out[a])}],
        path |-> path,
        \* cumulated lengths along each path
        cum |-> [a \in A |-> [d \in 0..n |->
                  LET C == Lengths(raw, path[a][d], 1) IN [k \in 1..Len(path[a][d]) |-> C[k]]]],
        near |-> [a \in A |-> [d \in 0..n |->
                  <<furthest(path[a][d], -TolPos), furthest(path[a][d], TolPos)>>]],
        \* place of link b on each path, 0 if not on it
        idx |-> [a \in A |-> [d \in 0..n |-> [b \in A |->
                  LET p == path[a][d]
                      S == {k \in 1..Len(p) : p[k] = b} IN
                  IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE]]],
        \* conflicts of b: <<other link, own min, own max, other min, other max>>
        conf |-> [b \in A |->
            {<<raw.K[i][2], raw.K[i][3], raw.K[i][4], raw.K[i][5], raw.K[i][6]>> :
                 i \in {j \in DOMAIN raw.K : raw.K[j][1] = b}}
            \cup {<<raw.K[i][1], raw.K[i][5], raw.K[i][6], raw.K[i][3], raw.K[i][4]>> :
                 i \in {j \in DOMAIN raw.K : raw.K[j][2] = b}}],
        hasK |-> Len(raw.K) > 0])

LenOf(N, a) == N.L[a][1]
Limit(N, a) == N.L[a][2]

(***************************************************************************)
(* Vehicles.  A vehicle consists of an observable row <<link, pos, vel>>   *)
(* and a carried record.                                                   *)
(***************************************************************************)
(* attributes, with the constant 2 sqrt(max acc * comf dec) appended *)
NewVeh(a) ==
    [a |-> Append(a, 2 * Sqrt(MaxAcc(a) * ComfDec(a))),
     d |-> 0,                        \* destination, 0 none
     rt |-> 0,                       \* where its present route leads
     ce |-> FALSE,                   \* it may leave at the end of the route
     elo |-> 0, ehi |-> 0, qlo |-> 0, qhi |-> 0,
     fz |-> FALSE,
     lo |-> MaxAcc(a), hi |-> MaxAcc(a),
     khi |-> MaxAcc(a),              \* the speed-keeping bound in force
     shi |-> NoTerm]                 \* the bound for stopping at a line in force

(* The situation at an update. *)
View(N, R, X) ==
    [v \in DOMAIN X |->
        LET r == R[v]
            x == X[v]
            p == N.path[r[1]][x.rt]
            e == Min2(x.elo, Len(p) - 1) + 1
            f == Min2(x.ehi, Len(p) - 1) + 1
        IN [lk |-> r[1], pos |-> r[2], vel |-> r[3],
            h |-> Half(x.a), a |-> x.a, rt |-> x.rt, ce |-> x.ce,
            elo |-> x.elo, ehi |-> x.ehi, qlo |-> x.qlo, qhi |-> x.qhi,
            p |-> p, c |-> N.cum[r[1]][x.rt],
            ks |-> N.near[r[1]][x.rt][1], km |-> N.near[r[1]][x.rt][2],
            ix |-> N.idx[r[1]][x.rt],
            e |-> e, f |-> f,        \* the first line surely/possibly ahead
            key |-> N.cum[r[1]][x.rt][e] - r[2]]]   \* the distance to the former

Front(w) == w.pos + w.h
Rear(w) == w.pos - w.h
(* Distance from the front to the line k links ahead. *)
Dist(w, k) == w.c[k] - w.pos - w.h
OnPath(w, k, a) == k <= Len(w.p) /\ w.p[k] = a

IdmLo(a, net, v, vl) == Idm(a, net - TolPos, v + TolVel, vl - TolVel) - TolAcc
IdmHi(a, net, v, vl) == Idm(a, net + TolPos, v - TolVel, vl + TolVel) + TolAcc

(* Vehicle w is within look-ahead of the line k links ahead, surely/possibly. *)
Sees(N, w, k) == k <= w.ks /\ Dist(w, k) <= LookAhead * Limit(N, w.lk) - TolPos
MaySee(N, w, k) == k <= w.km /\ Dist(w, k) <= LookAhead * Limit(N, w.lk) + TolPos

(* Is vehicle u between vehicle v and the line k links ahead of v, and on   *)
(* its way across that line?  If so, the number of links it needs.          *)
Between(W, v, k, u) ==
    LET j == W[v].ix[W[u].lk]
    IN IF /\ j # 0 /\ j <= k
          /\ j = 1 => W[u].pos >= W[v].pos
          /\ OnPath(W[u], k - j + 1, W[v].p[k])
       THEN k - j + 1 ELSE 0

(* Every vehicle between v and the line k links ahead has passed on, i.e.   *)
(* is committed beyond that line by this update at the latest (D: the       *)
(* decisions made so far), or leaves the simulation before it.              *)
PassedOn(W, D, v, k, sure) ==
    \A u \in DOMAIN W \ {v} :
        LET m == Between(W, v, k, u) IN
        m # 0 => \/ (IF sure THEN W[u].elo + D[u][1].dlo ELSE W[u].ehi + D[u][2].dhi) >= m
                 \/ (Len(W[u].p) = m /\ W[u].ce)

(***************************************************************************)
(* Gap acceptance.  A vehicle needing `time` to clear asks whether the      *)
(* conflict area [mn, mx] of link b stays free for long enough.             *)
(* qb: <<>> (everything counts), <<0, 0>> (only what has entered counts),   *)
(* or the caller's own <<qlo, qhi>> (earlier in the queue counts).          *)
(* sure = TRUE: the gap surely suffices; FALSE: it possibly does.           *)
(***************************************************************************)
RECURSIVE GapFree(_, _, _, _, _, _, _, _, _, _, _)
GapFree(N, W, sure, b, a, mn, mx, time, qb, r, vmax) ==
    LET vm == Max2(vmax, Limit(N, a))
        \* vehicles on a, bound for b, that have not cleared the area
        S == {u \in DOMAIN W : W[u].lk = a /\ OnPath(W[u], r + 1, b) /\ Rear(W[u]) <= mx}
        u == CHOOSE x \in S : \A z \in S : W[x].pos >= W[z].pos
        reach == MinReach(W[u].a, W[u].vel, mn - W[u].pos, vm)
        longer == IF sure THEN reach > time ELSE reach + 2 * TolTime > time
        notIn == IF sure THEN W[u].ehi < r ELSE W[u].elo < r
        later == CASE qb = <<>> -> FALSE
                   [] qb = <<0, 0>> -> TRUE
                   [] OTHER -> IF sure
                               THEN W[u].qhi = 0 \/ (qb[1] # 0 /\ W[u].qhi > qb[1])
                               ELSE W[u].qlo = 0 \/ W[u].qlo >= qb[2]
    IN IF S # {} THEN longer \/ (qb # <<>> /\ notIn /\ later)
       ELSE \/ (mn * 1000) \div vm > (IF sure THEN time + TolTime ELSE time - TolTime)
            \/ \A p \in N.ins[a] :
                  r < 3 => GapFree(N, W, sure, b, p, mn + LenOf(N, p), mx + LenOf(N, p), time, qb, r + 1, vm)

(* May (sure = FALSE) or must (sure = TRUE) vehicle v, first at the line of *)
(* the link b = k links ahead, go ahead?                                    *)
GapOk(N, W, c, v, k, sure) ==
    LET b == W[v].p[k + 1]
        mid == W[v].c[k] - W[v].pos
        z == IF sure THEN TolZone ELSE -TolZone
    IN \A x \in N.conf[b] :
        LET own == MinReach(W[v].a, W[v].vel, mid + x[3] + z, Limit(N, b))
            time == own + GapBuffer + (IF sure THEN TolTime ELSE -TolTime)
            qb == CASE c[x[1]][1] = 0 -> <<>>
                    [] c[x[1]][1] = 2 -> <<0, 0>>
                    [] c[b][4] < c[x[1]][4] -> <<>>
                    [] c[b][4] > c[x[1]][4] -> <<0, 0>>
                    [] OTHER -> <<W[v].qlo, W[v].qhi>>
            G(mx) == GapFree(N, W, sure, x[1], x[1], x[4] - z, mx, time, qb, 0, 0)
        IN IF sure THEN G(x[5] + TolZone) /\ G(x[5] - TolZone)
           ELSE G(x[5] + TolZone) \/ G(x[5] - TolZone)

(***************************************************************************)
(* What the line k links ahead asks of v: a record                          *)
(*   lo, hi : the acceleration term (NoTerm if none),                       *)
(*   dlo, dhi : links by which the commitment surely/possibly grows,        *)
(*   qlo, qhi : surely/possibly queued from now on,                         *)
(*   b : the link behind the line, 0 if the line does not count.            *)
(***************************************************************************)
NoDecision == [lo |-> NoTerm, hi |-> NoTerm, dlo |-> 0, dhi |-> 0, qlo |-> FALSE, qhi |-> FALSE, b |-> 0]

AtLine(N, W, c, D, v, k) ==
    LET w == W[v]
        vel == w.vel
        d == Dist(w, k)
        maybe == PassedOn(W, D, v, k, FALSE)
        surely == w.elo = w.ehi /\ Sees(N, w, k) /\ PassedOn(W, D, v, k, TRUE)
        stopLo == IF maybe THEN IdmLo(w.a, d, vel, 0) ELSE NoTerm
        stopHi == IF surely THEN IdmHi(w.a, d, vel, 0) ELSE NoTerm
    IN IF ~MaySee(N, w, k) THEN NoDecision
       ELSE IF k >= Len(w.p)             \* the route ends here
       THEN IF w.ce THEN NoDecision ELSE [NoDecision EXCEPT !.lo = stopLo, !.hi = stopHi]
       ELSE LET b == w.p[k + 1]
                slack == d - CommitMargin - StopDist(w.a, vel)
                tol == TolPos + (vel * 2 * TolVel) \div ComfDec(w.a)
                near == d - c[b][2]
                full == c[b][3] = 1
                canQ == near < TolPos /\ (full => vel < Crawl + TolVel) /\ maybe
                mustQ == near < -TolPos /\ (full => vel < Crawl - TolVel) /\ surely
                mayGo == w.qhi # 0 /\ maybe /\ GapOk(N, W, c, v, k, FALSE)
                mustGo == w.qlo # 0 /\ surely /\ GapOk(N, W, c, v, k, TRUE)
            IN CASE c[b][1] = 0 ->
                      [NoDecision EXCEPT !.b = b, !.dlo = IF slack < -tol /\ surely THEN 1 ELSE 0,
                                         !.dhi = IF slack < tol /\ maybe THEN 1 ELSE 0]
                 [] c[b][1] = 2 -> [NoDecision EXCEPT !.b = b, !.lo = stopLo, !.hi = stopHi]
                 [] OTHER -> [lo |-> IF mustGo THEN NoTerm ELSE stopLo,
                              hi |-> IF mayGo THEN NoTerm ELSE stopHi,
                              dlo |-> IF mustGo THEN 1 ELSE 0,
                              dhi |-> IF mayGo THEN 1 ELSE 0,
                              qlo |-> mustQ, qhi |-> canQ, b |-> b]

(* The decisions at the lines are made from the front of each queue to its  *)
(* back: <<at the first surely open line, at the last possibly open one>>,  *)
(* the latter with the effects of those in between.                         *)
RECURSIVE Later(_, _, _, _, _, _)
Later(N, W, c, D, v, k) ==
    LET A == AtLine(N, W, c, D, v, k)
        B == Later(N, W, c, D, v, k + 1)
    IN IF k >= W[v].f THEN A
       ELSE [B EXCEPT !.lo = Min2(@, A.lo), !.qhi = @ \/ A.qhi]
Decision(N, W, c, D, v) ==
    LET A1 == AtLine(N, W, c, D, v, W[v].e)
    IN <<A1, IF W[v].e = W[v].f THEN A1 ELSE Later(N, W, c, D, v, W[v].e + 1)>>
RECURSIVE DecideAll(_, _, _, _, _)
DecideAll(N, W, c, S, D) ==
    IF S = {} THEN D
    ELSE LET v == CHOOSE x \in S : \A y \in S : W[x].key <= W[y].key
                      D2 == TLCEval([D EXCEPT ![v] = Decision(N, W, c, D, v)])
         IN DecideAll(N, W, c, S \ {v}, D2)
Decide(N, W, c) ==
    DecideAll(N, W, c, {v \in DOMAIN W : MaySee(N, W[v], W[v].e) \/ MaySee(N, W[v], W[v].f)},
              [v \in DOMAIN W |-> <<NoDecision, NoDecision>>])

(* The terms from the k-th link ahead: its rearmost vehicle and its limit.  *)
(* Without commitment only the next link counts.                            *)
Ahead(N, W, v, k, sure) ==
    LET w == W[v]
        b == w.p[k + 1]
        e == IF sure THEN w.elo ELSE w.ehi
        S == {u \in DOMAIN W : W[u].lk = b}
        u == CHOOSE x \in S : \A y \in S : W[x].pos <= W[y].pos
        handled == /\ k = 1 \/ e >= k
                   /\ IF sure THEN Sees(N, w, k) ELSE MaySee(N, w, k)
                   \* the link takes part: somebody is on it or committed to it
                   /\ \/ e >= k \/ S # {}
                      \/ \E x \in DOMAIN W :
                            LET j == W[x].ix[b]
                            IN j # 0 /\ j - 1 <= (IF sure THEN W[x].elo ELSE W[x].ehi)
                   \* nobody in between would be handled instead
                   /\ ~sure \/ \A x \in DOMAIN W \ {v} :
                        LET j == w.ix[W[x].lk] IN
                        (j # 0 /\ j <= k /\ (j = 1 => W[x].pos >= w.pos)) => ~OnPath(W[x], k - j + 2, b)
        d == Dist(w, k)
        net == d + Rear(W[u])
        follow == IF S = {} THEN NoTerm
                  ELSE IF sure THEN IdmHi(w.a, net, w.vel, W[u].vel) ELSE IdmLo(w.a, net, w.vel, W[u].vel)
        dm == d + w.h
        slow == IF sure THEN LET x == Approach(w.a, w.vel - TolVel, Limit(N, b), dm + TolPos)
                             IN IF x = NoTerm THEN x ELSE x + TolAcc
                ELSE LET x == Min2(Approach(w.a, w.vel + TolVel, Limit(N, b), Max2(dm - TolPos, 1)),
                                   IF dm <= TolPos THEN SpeedKeep(w.a, w.vel + TolVel, Limit(N, b)) ELSE NoTerm)
                     IN IF x = NoTerm THEN x ELSE x - TolAcc
    IN IF handled THEN <<follow, slow>> ELSE <<NoTerm, NoTerm>>

(* The least of these terms: <<vehicles, limits>>. *)
RECURSIVE AheadAll(_, _, _, _, _)
AheadAll(N, W, v, k, sure) ==
    IF k = 0 THEN <<NoTerm, NoTerm>>
    ELSE LET x == Ahead(N, W, v, k, sure)
             y == AheadAll(N, W, v, k - 1, sure)
         IN <<Min2(x[1], y[1]), Min2(x[2], y[2])>>

(* A conflict may slow v down: someone on the other path is at least as     *)
(* near to the common area as v.                                            *)
ConflictAhead(N, W, v) ==
    N.hasK /\
    \E k \in 0..Min2(W[v].ehi, Len(W[v].p) - 1) :
        \E x \in N.conf[W[v].p[k + 1]] :
            LET before == IF k = 0 THEN 0 ELSE W[v].c[k]
                mine == before + x[2] - Front(W[v])
            IN /\ mine > -20000
               /\ \E u \in DOMAIN W \ {v} :
                    LET j == W[u].ix[x[1]]
                        b == IF j < 2 THEN 0 ELSE W[u].c[j - 1]
                    IN /\ j # 0 /\ j - 1 <= W[u].ehi
                       /\ b + x[4] - Front(W[u]) <= mine + 2 * TolZone
                       /\ b + x[5] - Rear(W[u]) >= -TolZone

(* The control update of vehicle v with record x: the record afterwards. *)
Update(N, W, c, D, x, v, n) ==
    LET w == W[v]
        kmax == Min2(Len(w.p) - 1, x.ehi + 1)
        A1 == D[v][1]
        A2 == D[v][2]
        S == {u \in DOMAIN W : u # v /\ W[u].lk = w.lk /\ W[u].pos >= w.pos}
        lead == CHOOSE u \in S : \A y \in S : W[u].pos <= W[y].pos
        net == Rear(W[lead]) - Front(w)
        lim == Limit(N, w.lk)
        lower == AheadAll(N, W, v, kmax, FALSE)
        upper == AheadAll(N, W, v, kmax, TRUE)
        keepHi == Min2(upper[2], SpeedKeep(x.a, Max2(w.vel - TolVel, 0), lim) + TolAcc)
        lo == IF x.fz THEN -MaxBrake
              ELSE IF ConflictAhead(N, W, v) THEN -MaxBrake
              ELSE Max2(-MaxBrake,
                   Min2(SpeedKeep(x.a, w.vel + TolVel, lim) - TolAcc,
                   Min2(IF S = {} THEN NoTerm ELSE IdmLo(x.a, net, w.vel, W[lead].vel),
                   Min2(Min2(lower[1], lower[2]), Min2(A1.lo, A2.lo)))))
        stop == IF x.elo = x.ehi THEN A1.hi ELSE NoTerm
        hi == IF x.fz THEN -MaxBrake
              ELSE Max2(-MaxBrake,
                   Min2(Min2(MaxAcc(x.a), keepHi),
                   Min2(IF S = {} THEN NoTerm ELSE IdmHi(x.a, net, w.vel, W[lead].vel),
                   Min2(upper[1], stop))))
        entered == A2.dhi = 1   \* possibly entered: the queue place is possibly given up
        surelyIn == A1.dlo = 1
    IN [x EXCEPT
          !.lo = lo, !.hi = hi, !.khi = keepHi, !.shi = stop,
          !.elo = x.elo + A1.dlo,
          !.ehi = x.ehi + A2.dhi,
          \* a queue place is taken once and kept until the link is entered
          !.qlo = IF entered THEN 0 ELSE IF x.qlo = 0 /\ A1.qlo THEN n ELSE x.qlo,
          !.qhi = IF surelyIn THEN 0 ELSE IF x.qhi = 0 /\ (A1.qhi \/ A2.qhi) THEN n ELSE x.qhi]

UpdateAll(N, W, c, D, X, n) == TLCEval([v \in DOMAIN X |-> Update(N, W, c, D, X[v], v, n)])

(***************************************************************************)
(* The route update: vehicles adopt the route to their destination.         *)
(***************************************************************************)
RECURSIVE Common(_, _, _)
Common(p, q, k) == IF k < Len(p) /\ k < Len(q) /\ p[k + 1] = q[k + 1] THEN Common(p, q, k + 1) ELSE k
Reroute(N, a, x) ==
    LET can == x.d # 0 /\ x.d \in N.reach[a]
        rt == IF can THEN x.d ELSE x.rt
        m == Common(N.path[a][x.rt], N.path[a][rt], 0) - 1   \* links ahead that stay the same
    IN IF rt = x.rt THEN [x EXCEPT !.ce = can]
       ELSE [x EXCEPT !.rt = rt, !.ce = can,
                 !.elo = Min2(@, m), !.ehi = Min2(@, m),
                 \* a place in a queue belongs to the line it was taken at
                 !.qlo = IF m <= x.ehi THEN 0 ELSE @,
                 !.qhi = IF m <= x.elo THEN 0 ELSE @]

(* After moving on to the next link one commitment is used up.  A place in  *)
(* the queue for a line that was passed regardless is given up.             *)
MovedOn(x) == [x EXCEPT !.elo = Max2(@ - 1, 0), !.ehi = Max2(@ - 1, 0),
                        !.qlo = IF x.elo = 0 THEN 0 ELSE @,
                        !.qhi = IF x.ehi = 0 THEN 0 ELSE @]
===============================================================================
