-------------------------------- MODULE Geometry --------------------------------
(***************************************************************************)
(* Rectangles in the plane.  Lengths in cm, unit vectors in thousandths.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

GAbs(x) == IF x < 0 THEN -x ELSE x
(* Dot and cross product of a vector and a unit vector, in units of the former. *)
Dot(a, u) == (a[1] * u[1] + a[2] * u[2]) \div 1000
Cross(u, a) == (u[1] * a[2] - u[2] * a[1]) \div 1000
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Left(u) == <<-u[2], u[1]>>

(* A rectangle: [c: centre, d: heading, l: half length, w: half width]. *)
Extent(r, u) == (r.l * GAbs(Dot(r.d, u)) + r.w * GAbs(Dot(Left(r.d), u))) \div 1000
Apart(r, q, u, margin) == GAbs(Dot(Minus(r.c, q.c), u)) >= Extent(r, u) + Extent(q, u) - margin

(* Two convex shapes are apart iff they are so in the direction of an edge. *)
(* They overlap when they intrude by more than the margin in every one.     *)
Overlap(r, q, margin) ==
    /\ GAbs(r.c[1] - q.c[1]) < r.l + q.l + r.w + q.w
    /\ GAbs(r.c[2] - q.c[2]) < r.l + q.l + r.w + q.w
    /\ ~Apart(r, q, r.d, margin) /\ ~Apart(r, q, Left(r.d), margin)
    /\ ~Apart(r, q, q.d, margin) /\ ~Apart(r, q, Left(q.d), margin)
=================================================================================
