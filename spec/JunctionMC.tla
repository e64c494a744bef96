-------------------------------- MODULE JunctionMC --------------------------------
(***************************************************************************)
(* The rules of a junction without distances and times: who may enter      *)
(* before whom.  Approaches have some vehicles each.  The first one of an  *)
(* approach is away, coming (close enough to matter for a gap), waiting in *)
(* the queue of the junction, or inside.  Checked: conflicting vehicles    *)
(* are never inside together, and everybody gets through (no lock-up), for *)
(* every assignment of controls.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Approaches,    \* numbers
          Conflicts,     \* set of two-element sets of approaches
          Vehicles,      \* per approach
          Priorities     \* of give-way and stop entries

Open == 99               \* an entry without control; a number otherwise is its priority
Controls == Priorities \cup {Open}
Conflicting(a) == {b \in Approaches : {a, b} \in Conflicts}

VARIABLES ctl, left, st, q
vars == <<ctl, left, st, q>>

(* No two open entries conflict. *)
Safe(c) == \A a \in Approaches : c[a] = Open => \A b \in Conflicting(a) : c[b] # Open

Init == /\ ctl \in {c \in [Approaches -> Controls] : Safe(c)}
        /\ left = [a \in Approaches |-> Vehicles]
        /\ st = [a \in Approaches |-> "away"]
        /\ q = <<>>

Place(a) == CHOOSE i \in DOMAIN q : q[i] = a

(* The gap a finds in the traffic of b. *)
Gap(a, b) ==
    CASE left[b] = 0 -> TRUE
      [] st[b] = "away" -> TRUE
      [] st[b] = "inside" -> FALSE
      [] st[b] = "coming" -> ctl[b] # Open /\ ctl[a] >= ctl[b]
      [] st[b] = "waiting" -> ctl[a] > ctl[b] \/ (ctl[a] = ctl[b] /\ Place(a) < Place(b))

Come(a) == /\ left[a] > 0 /\ st[a] = "away"
           /\ st' = [st EXCEPT ![a] = "coming"] /\ UNCHANGED <<ctl, left, q>>
Queue(a) == /\ left[a] > 0 /\ st[a] = "coming" /\ ctl[a] # Open
            /\ st' = [st EXCEPT ![a] = "waiting"] /\ q' = Append(q, a) /\ UNCHANGED <<ctl, left>>
(* Those who gave way to nobody took a gap that is over before the others come. *)
Drive(a) == /\ left[a] > 0 /\ st[a] = "coming" /\ ctl[a] = Open
            /\ \A b \in Conflicting(a) : st[b] # "inside"
            /\ st' = [st EXCEPT ![a] = "inside"] /\ UNCHANGED <<ctl, left, q>>
Enter(a) == /\ left[a] > 0 /\ st[a] = "waiting"
            /\ \A b \in Conflicting(a) : Gap(a, b)
            /\ st' = [st EXCEPT ![a] = "inside"]
            /\ q' = SelectSeq(q, LAMBDA x : x # a) /\ UNCHANGED <<ctl, left>>
Leave(a) == /\ st[a] = "inside"
            /\ st' = [st EXCEPT ![a] = "away"] /\ left' = [left EXCEPT ![a] = @ - 1] /\ UNCHANGED <<ctl, q>>

Move(a) == Come(a) \/ Queue(a) \/ Drive(a) \/ Enter(a) \/ Leave(a)
Next == \E a \in Approaches : Move(a)
Spec == Init /\ [][Next]_vars /\ \A a \in Approaches : WF_vars(Move(a))

(* Only one of two conflicting approaches is used at a time. *)
Exclusive == \A a \in Approaches : st[a] = "inside" => \A b \in Conflicting(a) : st[b] # "inside"
(* A stuck state is one in which nobody can move though somebody is left. *)
NoLockUp == (\E a \in Approaches : left[a] > 0) => ENABLED Next
(* Everybody passes. *)
Passes == \A a \in Approaches : <>(left[a] = 0)
(* Of two waiting with equal rights the first to wait is the first to enter. *)
InOrder == [][\A a \in Approaches : (st[a] = "waiting" /\ st'[a] = "inside") =>
                \A b \in Conflicting(a) : (st[b] = "waiting" /\ ctl[b] = ctl[a]) => Place(a) < Place(b)]_vars
====================================================================================
