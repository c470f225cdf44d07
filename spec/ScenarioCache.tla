---------------------------- MODULE ScenarioCache ----------------------------
(***************************************************************************)
(* The per-scenario connection cache of the server, shared by concurrent   *)
(* queries (C13, C14).  A query looks its scenario up (points "hit" and    *)
(* "miss"), on a miss computes a set ("publish" just before storing it,    *)
(* "published" just after), then answers from the set it holds.  Sets are  *)
(* objects with shared ownership: an object that nobody references any     *)
(* more is gone.                                                           *)
(*                                                                         *)
(* mode "one" keeps the last set only, "all" keeps every set.              *)
(* bug names a deliberately wrong variant; the invariants must hold for    *)
(* "none" and TLC must find a behaviour that breaks each of the others.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NQ,          \* number of concurrent queries
          NS,          \* number of scenarios
          Schedules,   \* TRUE: keep the schedule in the state and print it when all are done
          Bugs         \* variants explored

Queries == 1..NQ
Scenarios == 1..NS
None == 0

VARIABLES mode, bug, scen,     \* fixed at the start
          warm,                \* scenario cached at the start (None: cold)
          pc, held,            \* per query: where it is, the set it holds
          cache,               \* scenario -> set
          last,                \* mode "one": the scenario whose set is kept
          heap,                \* set -> scenario it was computed for (None: gone)
          resp,                \* per query: what it answered from
          sched

vars == <<mode, bug, scen, warm, pc, held, cache, last, heap, resp, sched>>

Ids == 1..(2 * NQ + 2)
NoCache == [s \in Scenarios |-> None]

Init ==
  /\ mode \in {"one", "all"}
  /\ bug \in Bugs
  /\ scen \in [Queries -> Scenarios]
  /\ warm \in 0..NS
  /\ pc = [q \in Queries |-> "idle"]
  /\ held = [q \in Queries |-> None]
  /\ cache = IF warm = None THEN NoCache ELSE [NoCache EXCEPT ![warm] = 1]
  /\ last = warm
  /\ heap = [i \in Ids |-> IF i = 1 /\ warm # None THEN warm ELSE None]
  /\ resp = [q \in Queries |-> None]
  /\ sched = <<>>

-----------------------------------------------------------------------------
Stored == {cache[s] : s \in Scenarios} \ {None}
Owners(h) == IF bug = "borrow" THEN {} ELSE {h[q] : q \in Queries} \ {None}

\* objects nobody owns are gone
Collect(hp, c, h) == [i \in Ids |-> IF i \in ({c[s] : s \in Scenarios} \cup Owners(h)) THEN hp[i] ELSE None]
Fresh == CHOOSE i \in Ids : heap[i] = None /\ i \notin Stored /\ \A q \in Queries : held[q] # i

Found(q) ==
  CASE bug = "key" -> IF mode = "one" THEN IF last # None THEN cache[last] ELSE None ELSE cache[scen[q]]
    [] OTHER -> cache[scen[q]]

\* "tornread": the kept scenario is looked at, and the kept set taken in a second step
Glance(q) ==
  /\ bug = "tornread" /\ mode = "one" /\ pc[q] = "idle"
  /\ IF last = scen[q]
     THEN pc' = [pc EXCEPT ![q] = "glanced"]
     ELSE pc' = [pc EXCEPT ![q] = "miss"]
  /\ UNCHANGED <<mode, bug, scen, warm, held, cache, last, heap, resp>>

Take(q) ==
  /\ pc[q] = "glanced"
  /\ held' = [held EXCEPT ![q] = cache[last]]
  /\ pc' = [pc EXCEPT ![q] = "hit"]
  /\ UNCHANGED <<mode, bug, scen, warm, cache, last, heap, resp>>

Lookup(q) ==
  /\ ~(bug = "tornread" /\ mode = "one")
  /\ pc[q] \in {"idle", "hit", "published"}
  /\ resp[q] = None
  /\ IF Found(q) # None
     THEN held' = [held EXCEPT ![q] = Found(q)] /\ pc' = [pc EXCEPT ![q] = "hit"]
     ELSE held' = [held EXCEPT ![q] = None] /\ pc' = [pc EXCEPT ![q] = "miss"]
  /\ heap' = Collect(heap, cache, held')
  /\ UNCHANGED <<mode, bug, scen, warm, cache, last, resp>>

\* the set computed for q; "scratch": the computation uses buffers shared by all queries
Content(q) == IF bug = "scratch" /\ \E p \in Queries : p # q /\ pc[p] = "publish" /\ scen[p] # scen[q]
              THEN CHOOSE s \in Scenarios : s # scen[q] ELSE scen[q]

Compute(q) ==
  /\ pc[q] = "miss"
  /\ LET i == Fresh IN
     /\ held' = [held EXCEPT ![q] = i]
     /\ heap' = [Collect(heap, cache, held') EXCEPT ![i] = Content(q)]
  /\ pc' = [pc EXCEPT ![q] = "publish"]
  /\ UNCHANGED <<mode, bug, scen, warm, cache, last, resp>>

\* "tornwrite": the name of the kept scenario is stored first, the set in a second step
Name(q) ==
  /\ bug = "tornwrite" /\ mode = "one" /\ pc[q] = "publish"
  /\ cache' = [NoCache EXCEPT ![scen[q]] = IF last = None THEN None ELSE cache[last]]
  /\ last' = scen[q]
  /\ pc' = [pc EXCEPT ![q] = "named"]
  /\ UNCHANGED <<mode, bug, scen, warm, held, heap, resp>>

Fill(q) ==
  /\ pc[q] = "named"
  /\ cache' = [NoCache EXCEPT ![last] = held[q]]
  /\ heap' = Collect(heap, cache', held)
  /\ pc' = [pc EXCEPT ![q] = "published"]
  /\ UNCHANGED <<mode, bug, scen, warm, held, last, resp>>

Publish(q) ==
  /\ pc[q] = "publish"
  /\ ~(bug = "tornwrite" /\ mode = "one")
  /\ LET keep == IF mode = "one" THEN NoCache ELSE cache
         k == IF bug = "swap" /\ last # None THEN last ELSE scen[q]
     IN  cache' = [keep EXCEPT ![k] = held[q]] /\ last' = k
  \* "reread": after storing, the query takes what is in the cache now instead of what it stored
  /\ held' = IF bug = "forget" THEN [held EXCEPT ![q] = None] ELSE held
  /\ heap' = Collect(heap, cache', held')
  /\ pc' = [pc EXCEPT ![q] = "published"]
  /\ UNCHANGED <<mode, bug, scen, warm, resp>>

Uses(q) == CASE bug = "reread" /\ last # None -> cache[last]          \* takes whatever is kept now
             [] bug = "forget" /\ held[q] = None -> IF last # None THEN cache[last] ELSE None
             [] OTHER -> held[q]

Answer(q) ==
  /\ pc[q] \in {"hit", "published"}
  /\ resp' = [resp EXCEPT ![q] = IF Uses(q) = None THEN -1 ELSE IF heap[Uses(q)] = None THEN -1 ELSE heap[Uses(q)]]
  /\ pc' = [pc EXCEPT ![q] = "done"]
  /\ held' = [held EXCEPT ![q] = None]
  /\ heap' = Collect(heap, cache, held')
  /\ UNCHANGED <<mode, bug, scen, warm, cache, last>>

\* one lookup per request
Step(q) == \/ pc[q] = "idle" /\ Lookup(q)
           \/ Glance(q) \/ Take(q)
           \/ Compute(q)
           \/ Name(q) \/ Fill(q)
           \/ Publish(q)
           \/ Answer(q)

Done == \A q \in Queries : pc[q] = "done"

Next == \E q \in Queries :
          /\ Step(q)
          /\ sched' = IF Schedules THEN Append(sched, q) ELSE sched
          /\ (Schedules /\ \A p \in Queries : pc'[p] = "done") => PrintT(<<"S", mode, scen, warm, sched'>>)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a query answers from the set of its own scenario, which is still there
RightAnswer == \A q \in Queries : resp[q] # None => resp[q] = scen[q]
\* what is kept can be handed to any later query
CacheSound == \A s \in Scenarios : cache[s] # None => heap[cache[s]] = s
OneKept == mode = "one" => Cardinality({s \in Scenarios : cache[s] # None}) <= 1
\* with a sound cache and an idle server, every later query is answered right: this is C13 of the model
Sound == bug = "none" => RightAnswer /\ CacheSound /\ OneKept

\* for the wrong variants: report each one that breaks the invariants (the check demands that all of them do)
Caught == (bug # "none" /\ ~(RightAnswer /\ CacheSound /\ OneKept)) => PrintT(<<"M", bug>>)
=============================================================================
