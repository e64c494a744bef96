----------------------------- MODULE TrafficTrace -----------------------------
(***************************************************************************)
(* Validates recorded runs of the simulation against Traffic.              *)
(*                                                                         *)
(* A trace has a header (L, out, K: the network; lights: the links of each *)
(* movement of each signal) and events, one per call.  Link, position and  *)
(* speed of every vehicle after every call are taken from the trace; what  *)
(* cannot be observed is carried along by the rules of Traffic.  There is  *)
(* one behaviour per trace: the state after l events is determined by      *)
(* them.  Each property is an invariant relating the last event to what    *)
(* the rules allow.                                                        *)
(***************************************************************************)
EXTENDS Traffic, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l,      \* trace number, events consumed
          N,         \* the network of the trace (constant)
          s          \* the state, a record
vars == <<t, l, N, s>>
Key == <<t, l>>      \* the state is determined by these
Shown == [t |-> t, l |-> l, s |-> s]   \* in counterexamples
(* s.status   "ok", "panic", "malformed"                                   *)
(* s.ctl      link -> control                                              *)
(* s.rows     vehicle -> <<link, pos, vel>>                                *)
(* s.vs       vehicle -> carried record                                    *)
(* s.gh       vehicle -> history needed by single properties               *)
(* s.ta, s.tl time since the last control / route update                   *)
(* s.tick     number of control updates so far                             *)
(* s.frame    number of steps                                              *)
(* s.last     the situation before the last event                          *)

Evs == Traces[t].ev

(***************************************************************************)
(* History.                                                                *)
(***************************************************************************)
Unknown == 1000000
NewHist == [st |-> 0,          \* link before which it came to a full stop
            cm |-> {},         \* links it possibly committed to without having to stop
            ld |-> 0,          \* after a change of destination: the distance it may need to stop,
                               \* -1 until it learns of the new route
            ov |-> FALSE,      \* it passed the end of its link within that distance
            dc |-> FALSE,      \* its destination was changed on this link
            ve |-> 0,          \* speed when it came onto its link
            ul |-> 0,          \* link it was on at its last control update
            am |-> Unknown,    \* the acceleration in the last step
            wt |-> 0]          \* how long it has been free to start

(* The distance between the front of v and the end of its link. *)
ToEnd(R, X, v) == LenOf(N, R[v][1]) - R[v][2] - Half(X[v].a)
(* The way v may go until it stops at 5 m/s^2 after learning of a new route: *)
(* the next control update is at most 0.3 s away.                            *)
LateDist(R, X, v) == LET w == R[v][3] + (3 * MaxAcc(X[v].a)) \div 10
                     IN (3 * w) \div 10 + (w * (w \div 10)) \div 1000 + 500

(* Nothing keeps vehicle v, first at the line at the end of its link, from  *)
(* starting, apart from the control there.                                  *)
Unobstructed(R, X, v) ==
    LET p == N.path[R[v][1]][X[v].rt]
        ix == N.idx[R[v][1]][X[v].rt]
        cum == N.cum[R[v][1]][X[v].rt]
    IN /\ Len(p) > 1 /\ ~X[v].fz
       /\ N.conf[p[2]] = {} /\ N.conf[p[1]] = {}
       /\ \A u \in DOMAIN R \ {v} :
            LET j == ix[R[u][1]] IN
            \/ j = 0
            \/ j = 1 /\ R[u][2] < R[v][2]
            \/ j > 1 /\ cum[j - 1] + R[u][2] - R[v][2] > 60000

Hist(h, v, R, X1, X2, R2, c, c2, am, dt, lc, ac) ==
    LET p == N.path[R[v][1]][X1[v].rt]
        b == IF Len(p) > 1 THEN p[2] ELSE 0
        crossed == R2[v][1] # R[v][1]
        k == Min2(X1[v].ehi, Len(p) - 1) + 1
        bc == IF k < Len(p) THEN p[k + 1] ELSE 0
        stopped == b # 0 /\ R[v][3] < Crawl + TolVel
                   /\ ToEnd(R, X1, v) <= c[b][2] + TolPos
        ix == N.idx[R[v][1]][X2[v].rt]
        ld == IF h.ld = -1 /\ lc THEN LateDist(R, X1, v) ELSE h.ld
        wait == b # 0 /\ c2[b][1] = 0 /\ ToEnd(R2, X1, v) < 10000 /\ Unobstructed(R2, X2, v)
    IN [st |-> IF crossed THEN 0 ELSE IF stopped THEN b ELSE h.st,
        cm |-> {a \in (IF X2[v].ehi > X1[v].ehi /\ bc # 0 /\ ~(c[bc][1] = 1 /\ c[bc][3] = 1)
                       THEN h.cm \cup {bc} ELSE h.cm) : ix[a] > 1 /\ ix[a] - 1 <= X2[v].ehi},
        ld |-> IF ld = -1 THEN -1 ELSE Max2(ld - Travel(R[v][3], R2[v][3], dt), 0),
        ov |-> (~crossed /\ h.ov) \/ (h.ld # 0 /\ ToEnd(R2, X1, v) <= 0),
        dc |-> ~crossed /\ h.dc,
        ve |-> IF crossed THEN R2[v][3] ELSE h.ve,
        ul |-> IF ac THEN R[v][1] ELSE h.ul,
        am |-> CASE R2[v][3] = 0 -> Unknown
                 [] dt > 0 -> am
                 [] OTHER -> IF ac THEN Unknown ELSE h.am,   \* a step of no length shows nothing
        wt |-> IF ~crossed /\ wait /\ R2[v][3] < Crawl THEN h.wt + dt ELSE 0]

(***************************************************************************)
(* Events.                                                                 *)
(***************************************************************************)
Ev == Evs[l + 1]
Obs(r) == <<r[2], r[3], r[4]>>
Ids(e) == {e.V[i][1] : i \in DOMAIN e.V}
RowOf(e, v) == e.V[CHOOSE i \in DOMAIN e.V : e.V[i][1] = v]
RowsOf(e) == TLCEval([v \in Ids(e) |-> Obs(RowOf(e, v))])

Sane(e) ==
    /\ \A i \in DOMAIN e.V :
         LET r == e.V[i] IN
           /\ r[1] > 0 /\ r[2] \in 1..N.n
           /\ Abs(r[3]) < 3000000 /\ r[4] > -100 /\ r[4] < 60000
    /\ Cardinality(Ids(e)) = Len(e.V)

(* The controls after a step: every link of a movement follows its signal. *)
Signalled == "lights" \in DOMAIN Traces[t]
SignalLinks == IF ~Signalled THEN {}
               ELSE UNION {UNION {Range(Traces[t].lights[k][m]) : m \in DOMAIN Traces[t].lights[k]} :
                           k \in DOMAIN Traces[t].lights}
Indication(e, a) == CHOOSE x \in {0, 1, 2} : \E k \in DOMAIN Traces[t].lights : \E m \in DOMAIN Traces[t].lights[k] :
                    a \in Range(Traces[t].lights[k][m]) /\ e.S[k][m] = x
Controls(e) == IF ~Signalled THEN s.ctl
               ELSE [a \in DOMAIN s.ctl |->
                       IF a \in SignalLinks
                       THEN <<IF Indication(e, a) = 2 THEN 0 ELSE 2, 0, 0, 0>>
                       ELSE s.ctl[a]]

(* An expression rather than an action: TLC evaluates the definitions in a   *)
(* LET expression once, those of an action at every use.                    *)
AfterStep(e) ==
    LET lc == s.tl >= RoutePeriod
        ac == s.ta >= AccPeriod
        R == s.rows
        X1 == IF lc THEN TLCEval([v \in DOMAIN s.vs |-> Reroute(N, R[v][1], s.vs[v])]) ELSE s.vs
        W == TLCEval(View(N, R, X1))
        D == TLCEval(Decide(N, W, s.ctl))
        X2 == IF ac THEN UpdateAll(N, W, s.ctl, D, X1, s.tick + 1) ELSE X1
        R2 == RowsOf(e)
        ids == Ids(e)
        stay == ids \cap DOMAIN X2
        c2 == Controls(e)
    IN [status |-> IF ids \subseteq DOMAIN X2 THEN "ok" ELSE "malformed",
        ctl |-> c2,
        rows |-> R2,
        vs |-> TLCEval([v \in stay |-> IF R2[v][1] # R[v][1] THEN MovedOn(X2[v]) ELSE X2[v]]),
        gh |-> TLCEval([v \in stay |-> Hist(s.gh[v], v, R, X1, X2, R2, s.ctl, c2, RowOf(e, v)[5], e.dt, lc, ac)]),
        tl |-> (IF lc THEN 0 ELSE s.tl) + e.dt,
        ta |-> (IF ac THEN 0 ELSE s.ta) + e.dt,
        tick |-> IF ac THEN s.tick + 1 ELSE s.tick,
        frame |-> s.frame + 1,
        last |-> [e |-> "step", rows |-> R, x1 |-> X1, vs |-> X2, gh |-> s.gh, ac |-> ac, ctl |-> s.ctl]]

Init == /\ t \in DOMAIN Traces
        /\ l = 0
        /\ N = TLCEval(Network([L |-> Traces[t].L, out |-> Traces[t].out, K |-> Traces[t].K]))
        /\ s = [status |-> "ok", ctl |-> [a \in 1..Len(Traces[t].L) |-> <<0, 0, 0, 0>>],
                rows |-> <<>>, vs |-> <<>>, gh |-> <<>>, ta |-> 0, tl |-> 0, tick |-> 0, frame |-> 0,
                last |-> [e |-> "none"]]

With(e, f, val) == s' = [s EXCEPT !.last = [e |-> e], ![f] = val]
Next ==
    /\ s.status = "ok" /\ l < Len(Evs)
    /\ l' = l + 1 /\ t' = t /\ N' = N
    /\ LET e == Ev IN
       CASE e.e = "step" -> IF Sane(e) THEN s' = AfterStep(e) ELSE With("none", "status", "malformed")
         [] e.e = "panic" -> With("none", "status", "panic")
         [] e.e = "control" -> With("none", "ctl", [s.ctl EXCEPT ![e.link] = e.c])
         [] e.e = "light" -> With("none", "ctl", s.ctl)
         [] e.e = "add" ->
              s' = [s EXCEPT !.rows = (e.v :> Obs(e.row)) @@ @,
                             !.vs = (e.v :> NewVeh(e.attr)) @@ @,
                             !.gh = (e.v :> NewHist) @@ @,
                             !.status = IF e.v \in DOMAIN s.vs THEN "malformed" ELSE @,
                             !.last = [e |-> "add"]]
         [] e.e = "dest" ->
              s' = [s EXCEPT !.vs[e.v].d = e.link, !.vs[e.v].ce = FALSE,
                             !.gh[e.v].ld = -1,
                             !.gh[e.v].ov = @ \/ ToEnd(s.rows, s.vs, e.v) <= 0,
                             !.gh[e.v].dc = TRUE,
                             !.last = [e |-> "dest"]]
         [] e.e = "remove" ->
              IF ~Sane(e) THEN With("none", "status", "malformed")
              ELSE s' = [s EXCEPT !.rows = RowsOf(e),
                                  !.vs = [v \in Ids(e) \cap DOMAIN @ |-> @[v]],
                                  !.gh = [v \in Ids(e) \cap DOMAIN @ |-> @[v]],
                                  !.status = IF Ids(e) \subseteq DOMAIN s.vs THEN "ok" ELSE "malformed",
                                  !.last = [e |-> "remove", rows |-> s.rows]]
         [] e.e = "freeze" ->
              s' = [s EXCEPT !.vs = IF e.v \in DOMAIN @ THEN [@ EXCEPT ![e.v].fz = (e.on = 1)] ELSE @,
                             !.last = [e |-> "freeze"]]
         [] OTHER -> With("none", "status", s.status)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
rows == s.rows
last == s.last
Ok == s.status = "ok"
Stepped == last.e = "step"
E == Evs[l]                                  \* the event just consumed
Both == DOMAIN rows \cap DOMAIN last.rows    \* present before and after
Gone == DOMAIN last.rows \ DOMAIN rows
V0(v) == last.rows[v][3]
V1(v) == rows[v][3]
Ended(v) == last.rows[v][2] + Travel(V0(v), V1(v), E.dt)   \* position reached on the old link
Crossed(v) == rows[v][1] # last.rows[v][1]
AtMost(v, acc) == V1(v) <= NextVel(V0(v), acc, E.dt) + TolVel
AtLeast(v, acc) == V1(v) >= NextVel(V0(v), acc, E.dt) - TolVel
Overrun(v) == Half(s.vs[v].a) + rows[v][2] - LenOf(N, rows[v][1])   \* front beyond the link's end
ForAll(P(_)) == Ok /\ (Stepped => \A v \in Both : P(v))

(* C04: nobody passes a closed entry unless possibly committed to it before. *)
Late(h) == h.ov \/ h.ld # 0
Excused(v) == last.vs[v].ehi > 0 \/ Late(last.gh[v])
C04 == ForAll(LAMBDA v :
    /\ (Crossed(v) /\ last.ctl[rows[v][1]][1] = 2) => Excused(v)
    \* everybody else stays before the line
    /\ LET p == N.path[rows[v][1]][s.vs[v].rt] IN
       (/\ Len(p) > 1 /\ s.ctl[p[2]][1] = 2
        /\ s.vs[v].ehi = 0 /\ ~Late(s.gh[v])) => Overrun(v) <= TolPos)

(* C05: signals control exactly their links. *)
LineKnown(v) == last.vs[v].elo = last.vs[v].ehi
C05 == /\ ForAll(LAMBDA v :
            /\ (Crossed(v) /\ rows[v][1] \in SignalLinks /\ last.ctl[rows[v][1]][1] = 2) => Excused(v)
            \* it brakes for its line as soon as that is closed, and only then
            /\ AtMost(v, Max2(last.vs[v].shi, -MaxBrake))
            /\ AtLeast(v, last.vs[v].lo)
            \* released vehicles start
            /\ s.gh[v].wt <= 100000 + 2 * E.dt)
       /\ (Stepped /\ Signalled) =>
            \* what the signal reports for the links
            /\ {E.C[i][1] : i \in DOMAIN E.C} = SignalLinks
            /\ \A i \in DOMAIN E.C : E.C[i][2] = s.ctl[E.C[i][1]][1]

(* C06: full stop before lines that demand it. *)
C06 == ForAll(LAMBDA v :
    LET b == rows[v][1] IN
    (Crossed(v) /\ last.ctl[b][1] = 1 /\ last.ctl[b][3] = 1)
        => last.gh[v].st = b \/ b \in last.gh[v].cm \/ Late(last.gh[v]))

(* C07, C08: the rules of giving way.  Vehicles go ahead only when they     *)
(* may, and do when they must.                                              *)
Yielding(v) == LET p == N.path[last.rows[v][1]][last.x1[v].rt]
                   k == Min2(last.x1[v].ehi, Len(p) - 1) + 1
               IN k < Len(p) /\ last.ctl[p[k + 1]][1] = 1
GiveWay(v) ==
    /\ (Crossed(v) /\ last.ctl[rows[v][1]][1] = 1) => Excused(v)
    /\ Yielding(v) => /\ AtMost(v, Max2(last.vs[v].shi, -MaxBrake))
                      /\ AtLeast(v, last.vs[v].lo)
C07 == ForAll(GiveWay)
C08 == ForAll(GiveWay)

(* C10: no overlap and no change of order along a path. *)
(* u is ahead of v on v's path: the distance from v's front to u's rear *)
GapTo(R, X, v, u) ==
    LET a == R[v][1]
        j == N.idx[a][X[v].rt][R[u][1]]
        base == IF j < 2 THEN 0 ELSE N.cum[a][X[v].rt][j - 1]
    IN base + R[u][2] - Half(X[u].a) - R[v][2] - Half(X[v].a)
IsAhead(R, X, v, u) == LET j == N.idx[R[v][1]][X[v].rt][R[u][1]] IN j > 1 \/ (j = 1 /\ R[u][2] > R[v][2])
C10 == /\ ForAll(LAMBDA v : \A u \in DOMAIN rows \ {v} :
              /\ IsAhead(rows, s.vs, v, u) => GapTo(rows, s.vs, v, u) > 0
              /\ (rows[u][1] = rows[v][1]) => rows[u][2] # rows[v][2])
       \* order: whoever was ahead on the path stays ahead
       /\ Stepped => \A v, u \in Both :
              (v # u /\ IsAhead(last.rows, last.vs, v, u)) => ~IsAhead(rows, s.vs, u, v)

(* C12: limits of motion and the integration law. *)
C12 == ForAll(LAMBDA v :
    LET a == last.vs[v].a IN
       /\ V1(v) >= 0
       /\ V1(v) <= V0(v) + (MaxAcc(a) * E.dt) \div 100000 + TolVel
       /\ V1(v) >= Max2(0, V0(v) - (MaxBrake * E.dt) \div 100000) - TolVel
       /\ Abs(rows[v][2] + (IF Crossed(v) THEN LenOf(N, last.rows[v][1]) ELSE 0) - Ended(v)) <= TolPos
       \* renewed at updates according to the law, held in between
       /\ last.ac => AtMost(v, last.vs[v].hi) /\ AtLeast(v, last.vs[v].lo)
       /\ (~last.ac /\ E.dt > 0 /\ V1(v) > 0 /\ last.gh[v].am # Unknown) => Abs(RowOf(E, v)[5] - last.gh[v].am) <= 1
       /\ RowOf(E, v)[16] = (IF V1(v) < Crawl THEN 1 ELSE 0) \/ Abs(V1(v) - Crawl) <= 1)

(* C13: speed limits. *)
Reachable(a, v0, lim, dist) == v0 <= lim \/ ((v0 - lim) * ((v0 + lim) \div 100)) \div (dist \div 50) <= (9 * ComfDec(a)) \div 5
C13 == ForAll(LAMBDA v :
    LET a == last.rows[v][1]
        b == rows[v][1]
    IN /\ AtMost(v, Max2(last.vs[v].khi, -MaxBrake))
       /\ (~Crossed(v) /\ s.gh[v].ul = a /\ V0(v) <= Limit(N, a)) => V1(v) <= Limit(N, a) + TolVel
       /\ (/\ Crossed(v) /\ ~last.gh[v].dc
           /\ Reachable(last.vs[v].a, Max2(last.gh[v].ve, Limit(N, a)), Limit(N, b),
                        Min2(LenOf(N, a), LookAhead * Limit(N, b))))
          => V1(v) <= Limit(N, b) + (15 * Limit(N, b)) \div 100)

(* C14: free vehicles are not held up. *)
Free(W, v) ==
    LET w == W[v]
        far == LookAhead * 17000 + TolPos
    IN /\ ~last.vs[v].fz
       /\ \A k \in 1..Len(w.p) :
            \/ Dist(w, k) > far
            \/ IF k = Len(w.p) THEN w.ce
               ELSE /\ last.ctl[w.p[k + 1]][1] = 0
                    /\ Limit(N, w.p[k + 1]) >= Limit(N, w.lk)
                    /\ N.conf[w.p[k + 1]] = {}
       /\ N.conf[w.lk] = {}
       /\ \A u \in DOMAIN W \ {v} :
            LET j == w.ix[W[u].lk] IN
            \/ j = 0
            \/ j = 1 /\ W[u].pos < w.pos
            \/ j > 1 /\ Dist(w, j - 1) > far
C14 == Ok /\ ((Stepped /\ last.ac) =>
    LET W == View(N, last.rows, last.x1) IN
    \A v \in Both : (W[v].vel <= Limit(N, W[v].lk) /\ Free(W, v)) =>
        AtLeast(v, SpeedKeep(last.vs[v].a, V0(v) + TolVel, Limit(N, W[v].lk)) - TolAcc))

(* C15: movement along the network. *)
C15 == ForAll(LAMBDA v :
    LET a == last.rows[v][1] IN
    /\ Crossed(v) => /\ rows[v][1] \in N.outs[a]
                     /\ Ended(v) >= LenOf(N, a) - TolPos
                     /\ Abs(rows[v][2] - (Ended(v) - LenOf(N, a))) <= TolPos
    /\ ~Crossed(v) => /\ Ended(v) <= LenOf(N, a) + TolPos
                      /\ Abs(rows[v][2] - Ended(v)) <= TolPos)

(* C16: leaving, and waiting at the end of the route. *)
Departs(v) == LET r == last.rows[v]
                  a == last.vs[v].a
              IN r[2] + Travel(r[3], NextVel(r[3], MaxAcc(a), E.dt), E.dt) >= LenOf(N, r[1]) - TolPos
C16 == /\ ForAll(LAMBDA v :
            LET p == N.path[rows[v][1]][s.vs[v].rt] IN
            (Len(p) = 1 /\ ~s.vs[v].ce /\ s.vs[v].d # rows[v][1] /\ ~Late(s.gh[v])) => Overrun(v) <= TolPos)
       /\ Stepped => \A v \in Gone : Late(last.gh[v]) \/ (last.vs[v].d = last.rows[v][1] /\ Departs(v))
       \* at the end of the run everybody with a reachable destination has left
       /\ (l = Len(Evs) /\ "drained" \in DOMAIN Traces[t]) =>
            \A v \in DOMAIN rows : s.vs[v].d = 0 \/ s.vs[v].d \notin N.reach[rows[v][1]]
                                   \/ s.vs[v].fz \/ Late(s.gh[v])

(* C18: the registry of vehicles. *)
C18 == /\ Ok
       /\ Stepped => E.f = s.frame /\ \A v \in Gone : Departs(v)
       /\ last.e = "add" => /\ E.fresh = 1
                            /\ E.row[2] = E.link /\ E.row[3] = 0 /\ E.row[4] = 0
       /\ last.e = "remove" => rows = [v \in DOMAIN last.rows \ {E.v} |-> last.rows[v]]

(* C19: frozen vehicles. *)
Braked(v) == Max2(V0(v) - (MaxBrake * E.dt) \div 100000, 0)
C19 == /\ ForAll(LAMBDA v :
            /\ (last.vs[v].fz /\ last.ac) => Abs(V1(v) - Braked(v)) <= TolVel
            /\ (last.vs[v].fz /\ last.vs[v].hi = -MaxBrake) =>
                 /\ Abs(V1(v) - Braked(v)) <= TolVel
                 /\ V0(v) = 0 => rows[v] = last.rows[v]
            /\ (~last.vs[v].fz /\ last.ac) => AtLeast(v, last.vs[v].lo))
       /\ (l > 0 /\ "F" \in DOMAIN E) => {v \in Range(E.F) : v \in DOMAIN rows} = {v \in DOMAIN rows : s.vs[v].fz}

(* C30: the acceleration law, both bounds. *)
C30 == ForAll(LAMBDA v : AtMost(v, last.vs[v].hi) /\ AtLeast(v, last.vs[v].lo))
===============================================================================
