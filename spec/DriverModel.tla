------------------------------ MODULE DriverModel ------------------------------
(***************************************************************************)
(* The longitudinal driver model in fixed point: mm, mm/s, mm/s^2, and     *)
(* time in units of 10 us (steps) or ms (estimates).                       *)
(*                                                                         *)
(* A vehicle's attributes are the sequence                                 *)
(*    <<width, length, wheel base, headway (ms), max acc, comf dec,        *)
(*      2 sqrt(max acc * comf dec)>>                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

MinGap == 2000        \* standstill distance
MaxBrake == 6000      \* hardest braking of any vehicle
AccPeriod == 10000    \* control update interval (0.1 s)
RoutePeriod == 30000  \* route update interval (0.3 s)
LookAhead == 5        \* s
CommitMargin == 5000  \* a vehicle commits this far before its last stopping point
StopSlack == 2500
GapBuffer == 500      \* ms
Crawl == 100          \* at rest: slower than this

Width(a) == a[1]
Half(a) == a[2] \div 2
Headway(a) == a[4]
MaxAcc(a) == a[5]
ComfDec(a) == a[6]

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
Abs(x) == IF x < 0 THEN -x ELSE x

(* Integer square root by bisection on [lo, hi). *)
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) ==
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2
         IN IF m * m <= x THEN Bisect(x, m, hi) ELSE Bisect(x, lo, m)
Sqrt(x) == IF x <= 0 THEN 0 ELSE Bisect(x, 0, 46341)

(* Speed keeping: max acc (1 - (v / limit)^4). *)
SpeedKeep(a, v, limit) ==
    LET r  == Min2((v * 10000) \div limit, 20000)
        r2 == (r * r) \div 10000
        r4 == (r2 * r2) \div 10000
    IN MaxAcc(a) - (MaxAcc(a) * r4) \div 10000

(* The intelligent driver term for an obstacle `net` ahead moving at vl. *)
Idm(a, net, v, vl) ==
    IF net <= MinGap THEN -10 * MaxAcc(a)
    ELSE LET ss == MinGap + (v * Headway(a)) \div 1000
                   + (v * (v - vl)) \div a[7]
             tm == Clamp((ss * 1000) \div net, -6000, 6000)
         IN MaxAcc(a) - (MaxAcc(a) * ((tm * tm) \div 1000)) \div 1000

(* Comfortable braking towards a lower limit d ahead; NoTerm if not needed yet. *)
NoTerm == 60000
Approach(a, v, limit, d) ==
    IF d <= 0 THEN SpeedKeep(a, v, limit)
    ELSE LET x == (limit * limit - v * v) \div (2 * d)
         IN IF x <= -ComfDec(a) THEN Max2(-2 * ComfDec(a), x) ELSE NoTerm

(* Comfortable stopping distance. *)
StopDist(a, v) == (v * v) \div (2 * ComfDec(a)) + StopSlack

(* Least time in ms to cover dist, accelerating to vmax.  Computed in cm. *)
MinReach(a, v, dist, vmax) ==
    LET ac == MaxAcc(a) \div 10
        vc == v \div 10
        mc == vmax \div 10
        dc == Max2(dist, 0) \div 10
        discr == 2 * ac * dc + vc * vc
    IN IF discr < mc * mc
       THEN ((Sqrt(discr) - vc) * 1000) \div ac
       ELSE LET t1 == ((mc - vc) * 1000) \div ac
                d1 == ((vc + mc) * t1) \div 2000
            IN t1 + ((dc - d1) * 1000) \div mc

(* One step of motion with constant acceleration; speed never negative. *)
NextVel(v, acc, dt) == Max2(v + (acc * dt) \div 100000, 0)
Travel(v, vn, dt) == ((v + vn) * dt) \div 200000
===============================================================================
