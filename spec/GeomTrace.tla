-------------------------------- MODULE GeomTrace --------------------------------
(***************************************************************************)
(* Validates where vehicles are in the plane: on the centre line, between  *)
(* two lanes during a change, and never on top of each other.              *)
(* Rows: <<id, link, pos, vel, acc, x, y, dirx, diry, rear, front, rear    *)
(* line x1, y1, x2, y2, stopped, dest, across, along, tanx, tany>>, the    *)
(* last four relative to the declared curve of the link.                   *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS TolAt,       \* mm, off the centre line of a straight link
          TolCurve,    \* mm, off that of a curved one
          TolBent,     \* mm, off the strip in a change begun in a bend
          TolJump,     \* mm, per step
          Margin       \* cm, overlap not counted

VARIABLES t, l, s
vars == <<t, l, s>>
Key == <<t, l>>
Evs == Traces[t].ev
H == Traces[t]
Range(q) == {q[i] : i \in DOMAIN q}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Row(e, v) == e.V[CHOOSE i \in DOMAIN e.V : e.V[i][1] = v]
Ids(e) == {e.V[i][1] : i \in DOMAIN e.V}
Finite(r) == \A i \in DOMAIN r : i = 5 \/ (r[i] > -100000000 /\ r[i] < 100000000)

(* s.rows rows, s.a attributes, s.dr distance driven on the present link and *)
(* since the last lane change (0: not moved since added), s.lc the lane      *)
(* change: [rem: distance left until its end (mm, 0: none), tot: at its      *)
(* beginning, lat: offset then, clean: begun on a lane and not between two,  *)
(* loose: allowance when not begun from straight driving, told: by a call]   *)
Travel(r, r2, dt) == (((r[4] + r2[4]) \div 2) * (dt \div 10)) \div 10000 + 1
Straight(a) == a \in DOMAIN H.straight /\ H.straight[a] = 1
AutoDist == 30000
NoChange == [rem |-> 0, tot |-> 0, lat |-> 0, clean |-> TRUE, loose |-> 0, told |-> FALSE]

(* A heading not that of the new lane takes the vehicle off the strip a bit. *)
Loose(v, a) == IF Straight(a) /\ Straight(s.rows[v][2]) /\ (s.dr[v] >= 5 * s.a[v][2] \/ s.dr[v] = 0) THEN 0 ELSE TolBent

AfterStep(e) ==
    LET stay == Ids(e) \cap DOMAIN s.rows
        R == TLCEval([v \in Ids(e) |-> Row(e, v)])
        go(v) == Travel(s.rows[v], R[v], e.dt)
        changed(v) == R[v][2] # s.rows[v][2] /\ R[v][2] \notin Range(H.out[s.rows[v][2]])
    IN [status |-> IF Ids(e) \subseteq DOMAIN s.rows /\ \A v \in Ids(e) : Finite(R[v]) THEN "ok" ELSE "malformed",
        rows |-> R,
        a |-> [v \in stay |-> s.a[v]],
        dr |-> [v \in stay |-> IF s.lc[v].rem # 0 \/ changed(v) THEN 1 ELSE IF R[v][2] # s.rows[v][2] THEN Max2(R[v][3], 1) ELSE s.dr[v] + go(v)],
        lc |-> [v \in stay |->
                  IF changed(v) THEN [rem |-> Max2(AutoDist - go(v), 1), tot |-> AutoDist, lat |-> R[v][18], clean |-> s.lc[v].rem = 0, loose |-> Loose(v, R[v][2]), told |-> FALSE]
                  ELSE IF s.lc[v].rem = 0 THEN NoChange
                  ELSE LET m == s.lc[v].rem - go(v) IN IF m < -300 THEN NoChange ELSE [s.lc[v] EXCEPT !.rem = IF m = 0 THEN -1 ELSE m]],
        last |-> [e |-> "step", rows |-> s.rows, lc |-> s.lc, dr |-> s.dr]]

Keep(e) == [s EXCEPT !.last = [e |-> e]]
Init == /\ t \in DOMAIN Traces /\ l = 0
        /\ s = [status |-> "ok", rows |-> <<>>, a |-> <<>>, dr |-> <<>>, lc |-> <<>>, last |-> [e |-> "none"]]
Next ==
    /\ s.status = "ok" /\ l < Len(Evs)
    /\ l' = l + 1 /\ t' = t
    /\ LET e == Evs[l + 1] IN
       s' = CASE e.e = "step" -> AfterStep(e)
              [] e.e = "add" -> [s EXCEPT !.rows = (e.v :> e.row) @@ @, !.a = (e.v :> e.attr) @@ @,
                                          !.dr = (e.v :> 0) @@ @, !.lc = (e.v :> NoChange) @@ @,
                                          !.last = [e |-> "add"]]
              [] e.e = "remove" ->
                    LET k == Ids(e) IN
                    [s EXCEPT !.rows = [v \in k |-> @[v]], !.a = [v \in k |-> @[v]],
                              !.dr = [v \in k |-> @[v]], !.lc = [v \in k |-> @[v]],
                              !.last = [e |-> "remove", lc |-> [v \in DOMAIN s.lc \ k |-> s.lc[v]]]]
              [] e.e = "lane" ->
                    [s EXCEPT !.rows[e.v] = e.row, !.dr[e.v] = 1,
                              !.lc[e.v] = [rem |-> e.dist, tot |-> e.dist, lat |-> e.row[18], clean |-> s.lc[e.v].rem = 0, loose |-> Loose(e.v, e.row[2]), told |-> TRUE],
                              !.last = [e |-> "lane", rows |-> s.rows]]
              [] e.e = "panic" -> [s EXCEPT !.status = "panic"]
              [] OTHER -> Keep("none")
Spec == Init /\ [][Next]_vars

Ok == s.status = "ok"
rows == s.rows
last == s.last
Stepped == last.e = "step"
E == Evs[l]
Both == DOMAIN rows \cap DOMAIN last.rows
Half(v) == s.a[v][2] \div 2
Wide(v) == s.a[v][1] \div 2

(* Position, speed and the world agree: the way in the plane (squared, cm). *)
Moved2(r, q) == LET x == (r[6] - q[6]) \div 10
                    y == (r[7] - q[7]) \div 10
                IN x * x + y * y
(* In an abrupt lane change the way across adds to the way along.           *)
Across(c, go) == IF c.rem # 0 /\ c.tot < 15000 THEN (2 * GAbs(c.lat) * (go \div 10)) \div c.tot ELSE 0
Continuous(v) == LET go == Travel(last.rows[v], rows[v], E.dt)
                     m == (12 * go) \div 100 + TolJump \div 10 + 2
                          + Max2(Across(s.lc[v], go), Across(last.lc[v], go))
                 IN Moved2(rows[v], last.rows[v]) <= m * m

(* C23: vehicles not changing lanes are on the centre line, and what they   *)
(* report about themselves is consistent.                                   *)
OnLine(v) ==
    LET r == rows[v]
        tol == IF Straight(r[2]) THEN TolAt ELSE TolCurve
    IN /\ GAbs(r[18]) <= tol
       /\ GAbs(r[19] - r[3]) <= (IF Straight(r[2]) THEN TolAt ELSE TolCurve + r[3] \div 100)
(* the cosine of the angle between heading and direction of the link, in thousandths *)
Aligned(r) == (r[8] * r[20] + r[9] * r[21]) \div 100000
RearAt(v, i) ==   \* <<along, across>> of an end of the rear line relative to the vehicle, mm
    LET r == rows[v]
        dx == r[i] - r[6]
        dy == r[i + 1] - r[7]
    IN <<(dx * r[20] + dy * r[21]) \div 10000, (dy * r[20] - dx * r[21]) \div 10000>>
Itself(v) ==
    LET r == rows[v] IN
    /\ GAbs(r[10] - (r[3] - Half(v))) <= 2 /\ GAbs(r[11] - (r[3] + Half(v))) <= 2
    /\ GAbs(r[8] * r[8] + r[9] * r[9] - 100000000) <= 40000
    /\ Aligned(r) > 0
    /\ (Straight(r[2]) /\ s.lc[v].rem = 0) =>
         /\ s.dr[v] >= 5 * s.a[v][2] => Aligned(r) >= 998
         /\ (s.dr[v] >= 5 * s.a[v][2] \/ s.dr[v] = 0) =>
              LET p == RearAt(v, 12)
                  q == RearAt(v, 14)
              IN /\ GAbs(p[1] + Half(v)) <= 30 /\ GAbs(q[1] + Half(v)) <= 30
                 /\ GAbs(Min2(p[2], q[2]) + Wide(v)) <= 60 /\ GAbs(Max2(p[2], q[2]) - Wide(v)) <= 60
C23 == /\ Ok
       /\ \A v \in DOMAIN rows : s.lc[v].rem = 0 => OnLine(v)
       /\ \A v \in DOMAIN rows : Itself(v)
       /\ Stepped => \A v \in Both : Continuous(v)

(* C22: lane changes. *)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
C22 == /\ Ok
       /\ Stepped => \A v \in Both :
            LET r == rows[v]
                c == s.lc[v]
                o == last.lc[v]
            IN /\ Continuous(v)
               \* at its end it is on its lane, and stays there
               /\ c.rem <= 0 => GAbs(r[18]) <= TolAt
               \* between the lanes and never back
               /\ (c.rem > 0 /\ c.clean) =>
                    /\ r[18] * Sgn(c.lat) >= -TolAt - c.loose /\ GAbs(r[18]) <= GAbs(c.lat) + TolAt + c.loose
                    /\ (o.rem > 0 /\ o.lat = c.lat) => GAbs(r[18]) <= GAbs(last.rows[v][18]) + 5 + c.loose
               \* at the pace of the change
               /\ (o.rem > 0 /\ o.clean /\ (c.rem = 0 \/ c.lat = o.lat)) =>
                    GAbs(last.rows[v][18] - r[18]) <=
                        (2 * GAbs(o.lat) * Travel(last.rows[v], r, E.dt)) \div o.tot + TolJump + o.loose
               \* halfway it is about in the middle, not still or already on a lane
               /\ (c.rem > 0 /\ c.clean /\ GAbs(c.rem - c.tot \div 2) <= c.tot \div 20 /\ GAbs(c.lat) > 2000) =>
                    GAbs(r[18]) > GAbs(c.lat) \div 4 /\ GAbs(r[18]) < (3 * GAbs(c.lat)) \div 4
       /\ last.e = "lane" => \A v \in DOMAIN rows \cap DOMAIN last.rows :
            Moved2(rows[v], last.rows[v]) <= 36
       \* vehicles told to change are removed long after, unless they have left before
       /\ last.e = "remove" => \A v \in DOMAIN last.lc : last.lc[v].told => last.lc[v].rem <= 0

(* Rectangles. *)
Box(v) == LET r == rows[v] IN [c |-> <<r[6] \div 10, r[7] \div 10>>, d |-> <<r[8] \div 10, r[9] \div 10>>,
                               l |-> Half(v) \div 10, w |-> Wide(v) \div 10]
Clear(P(_, _)) == Ok /\ (Stepped => LET B == TLCEval([v \in DOMAIN rows |-> Box(v)]) IN
    \A v, u \in DOMAIN rows : (v < u /\ P(v, u)) => ~Overlap(B[v], B[u], Margin))

(* C11: vehicles from different roads through a conflict.                   *)
(* Listed as a known finding: a vehicle made to stand with its middle past  *)
(* the end of its conflict link and its rear still in the conflict is not   *)
(* seen from the other road.                                                *)
Overhangs(v, u) ==
    /\ "stands" \in DOMAIN H /\ H.stands = v
    /\ rows[v][10] < 0
    /\ \E k \in Range(H.K) :
         /\ rows[u][2] \in {k[1], k[2]}
         /\ rows[v][2] \in Range(H.out[IF k[1] = rows[u][2] THEN k[2] ELSE k[1]])
         /\ rows[v][2] \notin Range(H.out[rows[u][2]])
C11 == Clear(LAMBDA v, u : rows[v][2] # rows[u][2] /\ ~Overhangs(v, u))

(* C26: nobody runs into a vehicle between two lanes.  At the end of the    *)
(* run everybody has left except a vehicle frozen, and those behind it: on  *)
(* both lanes if it is between them, else on its own.                       *)
C26 == /\ Clear(LAMBDA v, u : TRUE)
       /\ (l > 0 /\ E.e = "drain") =>
            LET at == [i \in DOMAIN E.V |-> E.V[i]]
                z == {i \in DOMAIN at : at[i][1] \in Range(E.F)}
                between == \E i \in z : GAbs(at[i][18]) > TolAt
            IN \A i \in DOMAIN at : i \in z \/ (z # {} /\ (between \/ \E k \in z : H.lane[at[k][2]] = H.lane[at[i][2]]))
==================================================================================
