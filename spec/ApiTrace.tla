--------------------------------- MODULE ApiTrace ---------------------------------
(***************************************************************************)
(* Validates that the implementation follows module Api: recorded calls    *)
(* and what was seen after them.  Rows are those of TrafficTrace.          *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, s
vars == <<t, l, s>>
Key == <<t, l>>
Evs == Traces[t].ev
Range(q) == {q[i] : i \in DOMAIN q}
Ids(e) == {e.V[i][1] : i \in DOMAIN e.V}

Init == t \in DOMAIN Traces /\ l = 0 /\ s = [a |-> Nothing, status |-> "ok"]
Next ==
    /\ s.status = "ok" /\ l < Len(Evs)
    /\ l' = l + 1 /\ t' = t
    /\ LET e == Evs[l + 1]
           a == s.a
           to(b) == [s EXCEPT !.a = b]
       IN s' = CASE e.e = "add" -> to(AddVehicle(a, e.v, e.link))
                 [] e.e = "remove" -> to(Remove(a, e.v))
                 [] e.e = "freeze" -> to(Freeze(a, e.v, e.on = 1))
                 [] e.e = "dest" -> to(SetDest(a, e.v, e.link))
                 [] e.e = "light" -> to(AddLight(a))
                 [] e.e \in {"step", "run", "drain"} ->
                        to(Departed(a, Present(a) \ Ids(e), IF e.e = "step" THEN 1 ELSE e.n))
                 [] e.e \in {"panic", "hang"} -> [s EXCEPT !.status = e.e]
                 [] OTHER -> s
Spec == Init /\ [][Next]_vars

Ok == s.status = "ok"
E == Evs[l]
Seen == l > 0 /\ E.e \in {"step", "run", "drain", "remove"}

(* C27: nothing fails, and what is reported are numbers about links that exist. *)
Number(x) == x > -900000000 /\ x < 900000000
Sane(r) == /\ \A i \in DOMAIN r : i = 5 \/ Number(r[i])
           /\ r[2] \in 1..Traces[t].links
           /\ r[4] >= 0 /\ r[4] <= 100000
           /\ r[8] * r[8] + r[9] * r[9] \in 99000000..101000000
C27 == /\ Ok
       /\ Seen => \A i \in DOMAIN E.V : Sane(E.V[i])
       /\ (l > 0 /\ E.e \in {"add", "lane"}) => Sane(E.row)

(* C18: the vehicles listed are those of the model, each once. *)
C18 == /\ Ok
       /\ Seen => /\ Ids(E) = Present(s.a)
                  /\ Cardinality(Ids(E)) = Len(E.V)
       /\ (l > 0 /\ E.e = "add") => /\ E.fresh = 1
                                    /\ E.row[2] = E.link /\ E.row[3] = 0 /\ E.row[4] = 0
       /\ (l > 0 /\ E.e = "remove") => E.v \notin Ids(E)
       /\ (l > 0 /\ E.e = "step") => E.f = s.a.frames

(* C19: frozen is what was frozen and not released. *)
C19 == /\ Ok
       /\ (l > 0 /\ E.e \in {"freeze", "run", "drain"}) =>
            \A v \in Present(s.a) : (v \in Range(E.F)) = s.a.veh[v].frozen
===================================================================================
