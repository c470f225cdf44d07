----------------------------- MODULE RouterTrace -----------------------------
(***************************************************************************)
(* Recorded behaviours of the real server and a scripted walking router    *)
(* against module Router (C20).                                            *)
(* Events: <<"S", thread, places, refused>>, <<"L", thread, place, reply,  *)
(* refused>>, <<"A", thread, kind, same>> (an answer: its documented form, *)
(* and whether it is the answer of a server whose router never failed),    *)
(* <<"Z", 0, kind, same>> (asked after the router recovered).              *)
(* The order of the lookups of one request is the server's business.       *)
(***************************************************************************)
EXTENDS Router, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, fs, bad       \* fs: thread -> [rep: place -> last reply to its lookup ("-": none), ref: refused]; NoReq when idle
tvars == <<vars, k, i, fs, bad>>
R == Runs[k]
NoReq == [rep |-> <<>>, ref |-> FALSE]

TraceInit ==
  /\ k \in 1..Len(Runs) /\ i = 1 /\ bad = {} /\ fs = [t \in Threads |-> NoReq]
  /\ Init

\* what counts of what the lookups of a request have met
Met(r) == LET s == {r.rep[p] : p \in DOMAIN r.rep} IN (s \ {"-", "ok"}) \cup (IF r.ref /\ "-" \in s THEN {"refuse"} ELSE {})

Good(e, met) == \/ e[4] /\ "same" \in Allowed(met)
                \/ e[3] \in Allowed(met)
Name(e, met) == CASE e[3] = "dead" -> "C20.alive"
                  [] e[3] = "malformed" -> "C20.form"
                  [] e[1] = "Z" -> "C20.recovered"
                  [] met = {} -> "C20.healthy"
                  [] OTHER -> "C20.faulted"

Consume ==
  /\ i <= Len(R.events)
  /\ LET e == R.events[i] IN
     CASE e[1] = "S" -> /\ fs[e[2]] = NoReq
                        /\ fs' = [fs EXCEPT ![e[2]] = [rep |-> [p \in PlacesOf(e[3]) |-> "-"], ref |-> e[4]]]
                        /\ bad' = bad
       [] e[1] = "L" -> /\ e[3] \in DOMAIN fs[e[2]].rep
                        /\ fs' = [fs EXCEPT ![e[2]].rep[e[3]] = e[4], ![e[2]].ref = @ \/ e[5]]
                        /\ bad' = bad
       [] e[1] \in {"A", "Z"} ->
                        /\ (IF e[1] = "Z" THEN TRUE ELSE fs[e[2]] # NoReq)
                        /\ LET met == IF e[1] = "Z" THEN {} ELSE Met(fs[e[2]])
                               v == IF Good(e, met) THEN {} ELSE {Name(e, met)} IN
                           /\ bad' = bad \cup v
                           /\ IF bad' # {} /\ bad = {} THEN PrintT(<<"F", R.id, i>>) ELSE TRUE
                        /\ fs' = IF e[1] = "Z" THEN fs ELSE [fs EXCEPT ![e[2]] = NoReq]
  /\ i' = i + 1 /\ UNCHANGED <<vars, k>>

Finish ==
  /\ i = Len(R.events) + 1 /\ i' = i + 1
  /\ LET v == bad \cup (IF R.alive THEN {} ELSE {"C20.alive"}) IN IF v = {} THEN TRUE ELSE PrintT(<<"V", R.id, v>>)
  /\ UNCHANGED <<vars, k, fs, bad>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
