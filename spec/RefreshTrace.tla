---------------------------- MODULE RefreshTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the real server against module Refresh (C15):     *)
(* every step must be one of the model, and every question asked while the *)
(* server is in step with the files must have got the answer of a server   *)
(* freshly started on them.                                                *)
(* A run: [id, mode, sched (first version), events, fresh, alive];         *)
(* events are <<"W", b, c, d>>, <<"R", names>>, <<"Q", s, request, answer>>;*)
(* fresh maps "b.c.d.s.request" to the answer of a fresh server.           *)
(***************************************************************************)
EXTENDS Refresh, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, bad
tvars == <<vars, k, i, bad>>
R == Runs[k]

TraceInit ==
  /\ k \in 1..Len(Runs) /\ i = 1 /\ bad = {}
  /\ Init /\ mode = Runs[k].mode /\ disk.sched = Runs[k].sched

Key(e) == ToString(disk.base) \o "." \o ToString(disk.scen) \o "." \o ToString(disk.sched) \o "." \o ToString(e[2]) \o "." \o ToString(e[3])

Do(e) == CASE e[1] = "W" -> (\E x \in {"sched", "both", "all"} : Write(x)) /\ disk' = [base |-> e[2], scen |-> e[3], sched |-> e[4]]
           [] e[1] = "R" -> Refresh(e[2])
           [] e[1] = "Q" -> Query(e[2])

Consume ==
  /\ i <= Len(R.events)
  /\ LET e == R.events[i] IN
     /\ Do(e)
     /\ bad' = IF e[1] = "Q" /\ Synced /\ e[4] # R.fresh[Key(e)]
               THEN bad \cup {IF kept[e[2]].on THEN "C15.queried" ELSE "C15.unqueried"} ELSE bad
     /\ IF bad' # {} /\ bad = {} THEN PrintT(<<"F", R.id, i>>) ELSE TRUE
  /\ i' = i + 1 /\ k' = k

Finish ==
  /\ i = Len(R.events) + 1 /\ i' = i + 1
  /\ LET v == bad \cup (IF R.alive THEN {} ELSE {"C15.alive"}) IN IF v = {} THEN TRUE ELSE PrintT(<<"V", R.id, v>>)
  /\ UNCHANGED <<vars, k, bad>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
