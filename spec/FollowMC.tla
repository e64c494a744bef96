-------------------------------- MODULE FollowMC --------------------------------
(***************************************************************************)
(* A platoon of two on an endless lane, as a design: the leader drives by  *)
(* the speed-keeping law and is frozen and released at arbitrary moments,  *)
(* the follower takes the least of its terms at every control update and   *)
(* keeps it in between.  Executes the operators of DriverModel exactly as  *)
(* TrafficTrace uses them to judge recorded runs.                          *)
(***************************************************************************)
EXTENDS DriverModel

CONSTANTS Drivers,   \* entries of Table, for the follower
          Limits,    \* mm/s
          Gaps,      \* at the start, mm
          Steps,     \* in 10 us
          Every,     \* the leader's mind may change when this has passed
          Changes,   \* so often at most
          Horizon    \* in 10 us

Table == << <<2000, 4500, 1500, 1500, 2000, 2000, 4000>>,
            <<2000, 4500, 1500, 1000, 3000, 2000, 4898>>,
            <<2000, 12000, 1500, 2000, 1000, 1500, 2449>>,
            <<2000, 4500, 1500, 800, 2500, 3500, 5916>> >>
Front == <<2000, 4500, 1500, 1500, 2000, 2000, 4000>>

VARIABLES cfg,       \* [a, limit, dt]
          gap, vf, vl, af, al, timer, frozen, n, t
vars == <<cfg, gap, vf, vl, af, al, timer, frozen, n, t>>

Init == /\ cfg \in [a : {Table[i] : i \in Drivers}, limit : Limits, dt : Steps]
        /\ gap \in Gaps
        /\ vf = 0 /\ vl = 0
        /\ af = MaxAcc(cfg.a) /\ al = MaxAcc(Front)
        /\ timer = 0 /\ frozen \in BOOLEAN /\ n = 0 /\ t = 0

Follow == Max2(-MaxBrake, Min2(Min2(MaxAcc(cfg.a), SpeedKeep(cfg.a, vf, cfg.limit)), Idm(cfg.a, gap, vf, vl)))
Lead(fz) == IF fz THEN -MaxBrake ELSE Max2(-MaxBrake, SpeedKeep(Front, vl, cfg.limit))

(* One call of step. *)
Step(fz) ==
    LET due == timer >= AccPeriod
        a   == IF due THEN Follow ELSE af
        b   == IF due THEN Lead(fz) ELSE al
        wf  == NextVel(vf, a, cfg.dt)
        wl  == NextVel(vl, b, cfg.dt)
    IN /\ af' = a /\ al' = b /\ vf' = wf /\ vl' = wl
       /\ gap' = gap + Travel(vl, wl, cfg.dt) - Travel(vf, wf, cfg.dt)
       /\ timer' = (IF due THEN 0 ELSE timer) + cfg.dt
       /\ t' = t + cfg.dt
       /\ frozen' = fz
       /\ UNCHANGED cfg

May == n < Changes /\ t \div Every # (t - cfg.dt) \div Every
Next == /\ t < Horizon
        /\ \/ Step(frozen) /\ n' = n
           \/ May /\ Step(~frozen) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

(* Nobody runs into the one ahead. *)
Apart == gap > 0
(* Speeds are within the limit and accelerations within what vehicles can do. *)
Bounded == /\ vf \in 0..cfg.limit
           /\ af \in -MaxBrake..MaxAcc(cfg.a)
(* A vehicle behind one at rest comes to rest in the end, some way behind it. *)
Settles == (t >= Horizon /\ n = 0 /\ frozen) => vf < 3 * Crawl /\ gap > MinGap \div 2
=================================================================================
