---------------------------- MODULE ReloadTrace ----------------------------
(***************************************************************************)
(* Recorded load on the real server while its data is refreshed (Reload): *)
(* a request must have been answered as by a fresh server on one of the    *)
(* versions the data had between its coming and its answer -- `lo` and     *)
(* `started` of module Reload are those of the recorder, which sees a      *)
(* request a little earlier, and an answer a little later, than the server.*)
(* A run: [id, events, fresh, alive]; events are <<"s", client, request>>, *)
(* <<"e", client, answer>>, <<"b">> and <<"d">> (a refresh begins, is      *)
(* done); fresh[v + 1][request] is the answer of a fresh server on version *)
(* v.                                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, lo, asked, started, finished, bad
vars == <<k, i, lo, asked, started, finished, bad>>
R == Runs[k]

Init ==
  /\ k \in 1..Len(Runs) /\ i = 1 /\ bad = {}
  /\ lo = [c \in 1..Runs[k].clients |-> 0] /\ asked = [c \in 1..Runs[k].clients |-> 0]
  /\ started = 0 /\ finished = 0

Verdict(c, a) ==
  LET ok(v) == R.fresh[v + 1][asked[c]] = a IN
  IF \E v \in lo[c]..started : ok(v) THEN {}
  ELSE IF \E v \in 0..(lo[c] - 1) : ok(v) THEN {"old"} ELSE {"mixed"}

Step(e) ==
  CASE e[1] = "s" -> lo' = [lo EXCEPT ![e[2]] = finished] /\ asked' = [asked EXCEPT ![e[2]] = e[3]] /\ UNCHANGED <<started, finished, bad>>
    [] e[1] = "e" -> LET v == Verdict(e[2], e[3]) IN
                     /\ bad' = bad \cup v
                     /\ IF v # {} /\ bad = {} THEN PrintT(<<"F", R.id, i>>) ELSE TRUE
                     /\ UNCHANGED <<lo, asked, started, finished>>
    [] e[1] = "b" -> started' = started + 1 /\ UNCHANGED <<lo, asked, finished, bad>>
    [] e[1] = "d" -> finished' = started /\ UNCHANGED <<lo, asked, started, bad>>

Consume == i <= Len(R.events) /\ Step(R.events[i]) /\ i' = i + 1 /\ k' = k
Finish ==
  /\ i = Len(R.events) + 1 /\ i' = i + 1
  /\ LET v == bad \cup (IF R.alive THEN {} ELSE {"alive"}) \cup (IF finished = R.refreshes THEN {} ELSE {"unrefreshed"})
     IN  IF v = {} THEN TRUE ELSE PrintT(<<"V", R.id, v>>)
  /\ UNCHANGED <<k, lo, asked, started, finished, bad>>

Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
