----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Validation of recorded concurrent runs of the real server.              *)
(*                                                                         *)
(* A run is what the verification points and the clients saw: which query  *)
(* reached which point in which order, and the answers.  The order is      *)
(* replayed on ScenarioCache; an event the model does not allow is         *)
(* reported as "drift" (the caching strategy differs - not a violation by  *)
(* itself).  What decides C14 is that every query got the answer of an     *)
(* idle server and that later answers are right.                           *)
(***************************************************************************)
EXTENDS ScenarioCache, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, i, drift
tvars == <<vars, k, i, drift>>

R == Runs[k]

TraceInit ==
  /\ k \in 1..Len(Runs)
  /\ i = 1
  /\ drift = FALSE
  /\ mode = Runs[k].mode /\ bug = "none" /\ scen = Runs[k].scen /\ warm = Runs[k].warm
  /\ Init

Ev == R.events[i]
Do(q, p) ==
  CASE p = "hit"       -> Lookup(q) /\ pc'[q] = "hit"
    [] p = "miss"      -> Lookup(q) /\ pc'[q] = "miss"
    [] p = "publish"   -> Compute(q)
    [] p = "published" -> Publish(q)
    [] p = "answer"    -> Answer(q)
    [] OTHER -> FALSE

\* a request that needs no set (nothing within walking distance, query error) is answered without a lookup
NoLookup(q, p) == p = "answer" /\ pc[q] = "idle" /\ pc' = [pc EXCEPT ![q] = "done"]
                  /\ UNCHANGED <<mode, bug, scen, warm, held, cache, last, heap, resp>>

Allowed(q, p) == \/ p \in {"hit", "miss"} /\ pc[q] \in {"idle", "hit", "published"} /\ ((Found(q) # None) <=> (p = "hit"))
                 \/ p = "publish" /\ pc[q] = "miss"
                 \/ p = "published" /\ pc[q] = "publish"
                 \/ p = "answer" /\ pc[q] \in {"hit", "published", "idle"}

Consume ==
  /\ i <= Len(R.events)
  /\ i' = i + 1
  /\ LET q == Ev[1]  p == Ev[2] IN
     IF drift \/ ~Allowed(q, p) THEN drift' = TRUE /\ UNCHANGED vars
     ELSE /\ (IF p = "answer" /\ pc[q] = "idle" THEN NoLookup(q, p) ELSE Do(q, p))
          /\ drift' = drift /\ sched' = sched
  /\ k' = k

If(cond, clause) == IF cond THEN {} ELSE {clause}

Verdict == If(\A q \in 1..Len(R.got) : R.got[q] = R.idle[q], "C14.answer")
           \cup If(R.later = R.laterIdle, "C14.later")
           \cup If(R.alive, "C14.alive")
           \cup If(~drift, "drift")

Finish ==
  /\ i = Len(R.events) + 1
  /\ i' = i + 1
  /\ IF Verdict = {} THEN TRUE ELSE PrintT(<<"V", R.id, Verdict>>)
  /\ UNCHANGED <<vars, k, drift>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
