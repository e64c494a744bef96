-------------------------------- MODULE TwinTrace --------------------------------
(***************************************************************************)
(* Two runs side by side: event by event, what the second one shows of the *)
(* part it has in common with the first must be the same.  In the second   *)
(* run unrelated calls may have been made in between, and the links of the *)
(* common part may have other numbers (by k), so may its signals (by lk).  *)
(* Rows: <<id, link, destination, stopped, check sum of the exact state>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
H == Traces[t]
Evs == H.ev
Key == <<t, l>>

Foreign == 100   \* vehicles of the other part are numbered from here
Link(a) == IF a = 0 THEN 0 ELSE a - H.k
Row(r) == [r EXCEPT ![2] = Link(@), ![3] = Link(@)]
Mine(q) == [i \in DOMAIN SelectSeq(q, LAMBDA r : r[1] < Foreign) |-> Row(SelectSeq(q, LAMBDA r : r[1] < Foreign)[i])]
OwnLink(a) == a > H.k /\ a <= H.k + H.n

(* What an event says about the common part. *)
Field(f, x) ==
    CASE f = "V" -> Mine(x)
      [] f = "row" -> Row(x)
      [] f \in {"link", "got"} -> Link(x)
      [] f = "F" -> SelectSeq(x, LAMBDA v : v < Foreign)
      [] f = "S" -> SubSeq(x, H.lk + 1, Len(x))
      [] f = "C" -> [i \in DOMAIN SelectSeq(x, LAMBDA c : OwnLink(c[1])) |->
                        LET c == SelectSeq(x, LAMBDA d : OwnLink(d[1]))[i] IN <<c[1] - H.k, c[2]>>]
      [] f = "k" -> x - H.lk
      [] OTHER -> x
(* A run without signals says nothing about them. *)
Shared(e) == [f \in {g \in DOMAIN e : g \in {"S", "C"} => Field(g, e[g]) # <<>>} |-> Field(f, e[f])]

Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Evs) /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

C25 == l > 0 => LET p == Evs[l] IN
    /\ p.a.e = p.b.e
    /\ p.a.e # "panic" => p.a = Shared(p.b)
Shown == [t |-> t, l |-> l, a |-> IF l > 0 THEN Evs[l].a ELSE 0, b |-> IF l > 0 THEN Evs[l].b ELSE 0]
==================================================================================
