------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* The server as seen by one client after another (C13): a function of the *)
(* data and the request.  The cached per-scenario sets are the only thing  *)
(* a request leaves behind; asking never changes what any request is       *)
(* answered.  Recorded histories are replayed on the sequential machine:   *)
(* kept is the model's cache, and every recorded answer must be the answer *)
(* a freshly started server gives to the same request.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
\* [id, mode, reqs: seq of [scen (0: none), idle], events: seq of <<request, answer>>, alive]

VARIABLES k, i, kept, bad
vars == <<k, i, kept, bad>>

R == Runs[k]

Init == k \in 1..Len(Runs) /\ i = 1 /\ kept = {} /\ bad = {}

\* what the cache may keep after a request for scenario s
Kept(s) == IF s = 0 THEN kept ELSE IF R.mode = "one" THEN {s} ELSE kept \cup {s}

Ask ==
  /\ i <= Len(R.events)
  /\ LET e == R.events[i] IN
     /\ kept' = Kept(R.reqs[e[1]].scen)
     /\ bad' = IF e[2] = R.reqs[e[1]].idle THEN bad
               ELSE bad \cup {IF R.reqs[e[1]].scen \in kept THEN "C13.cached" ELSE "C13.uncached"}
     /\ IF e[2] # R.reqs[e[1]].idle /\ bad = {} THEN PrintT(<<"F", R.id, i>>) ELSE TRUE
  /\ i' = i + 1
  /\ k' = k

Finish ==
  /\ i = Len(R.events) + 1
  /\ i' = i + 1
  /\ LET v == bad \cup (IF R.alive THEN {} ELSE {"C13.alive"}) IN
     IF v = {} THEN TRUE ELSE PrintT(<<"V", R.id, v>>)
  /\ UNCHANGED <<k, kept, bad>>

Next == Ask \/ Finish
Spec == Init /\ [][Next]_vars
OneKept == R.mode = "one" => Cardinality(kept) <= 1
=============================================================================
