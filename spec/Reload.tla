------------------------------- MODULE Reload -------------------------------
(***************************************************************************)
(* Refreshing the data of a running server while requests are in flight    *)
(* (a step beyond C14 and C15, which exclude it by their quantifiers).    *)
(*                                                                         *)
(* The data consists of parts which a refresh replaces one after the       *)
(* other; a request looks at all of them, one after the other.  Requests   *)
(* share the data, a refresh needs it for itself: a lock with many readers *)
(* or one writer, and a turn which everybody takes before asking for the   *)
(* lock and a refresh keeps until it is done, so that requests that come   *)
(* later cannot delay it forever.                                          *)
(*                                                                         *)
(* Refresh number r writes version r everywhere.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS NC,          \* clients, each sends one request after the other
          NP,          \* parts of the data
          NR,          \* refreshes
          Bugs

Clients == 1..NC
Parts == 1..NP
Nobody == 0
Refresher == NC + 1

VARIABLES bug,
          data,        \* part -> version
          turn,        \* who has it
          readers, writer,
          pc, at, seen,    \* per client: where it is, the part it looks at next, the versions it has seen
          lo,          \* per client: refreshes finished when the request came
          rpc, part,   \* the refresher, the next part it replaces
          started, finished,
          broken       \* a request was answered from something no data ever was

vars == <<bug, data, turn, readers, writer, pc, at, seen, lo, rpc, part, started, finished, broken>>

Init ==
  /\ bug \in Bugs
  /\ data = [p \in Parts |-> 0]
  /\ turn = Nobody /\ readers = {} /\ writer = FALSE
  /\ pc = [c \in Clients |-> "idle"] /\ at = [c \in Clients |-> 1] /\ seen = [c \in Clients |-> {}] /\ lo = [c \in Clients |-> 0]
  /\ rpc = "idle" /\ part = 1
  /\ started = 0 /\ finished = 0
  /\ broken = FALSE

Come(c) ==
  /\ pc[c] = "idle"
  /\ pc' = [pc EXCEPT ![c] = IF bug = "free" THEN "look" ELSE IF bug = "starve" THEN "wait" ELSE "turn"]
  /\ lo' = [lo EXCEPT ![c] = finished]
  /\ seen' = [seen EXCEPT ![c] = {}] /\ at' = [at EXCEPT ![c] = 1]
  /\ UNCHANGED <<bug, data, turn, readers, writer, rpc, part, started, finished, broken>>

TakeTurn(c) ==
  /\ pc[c] = "turn" /\ turn = Nobody
  /\ turn' = c
  /\ pc' = [pc EXCEPT ![c] = "wait"]
  /\ UNCHANGED <<bug, at, data, readers, writer, seen, lo, rpc, part, started, finished, broken>>

Enter(c) ==
  /\ pc[c] = "wait" /\ ~writer
  /\ readers' = readers \cup {c}
  /\ turn' = IF turn = c THEN Nobody ELSE turn
  /\ pc' = [pc EXCEPT ![c] = "look"]
  /\ UNCHANGED <<bug, at, data, writer, seen, lo, rpc, part, started, finished, broken>>

Look(c) ==
  /\ pc[c] = "look"
  /\ seen' = [seen EXCEPT ![c] = @ \cup {data[at[c]]}]
  \* "leave": the request gives the lock up before it has looked at everything
  /\ readers' = IF bug = "leave" /\ at[c] = 1 THEN readers \ {c} ELSE readers
  /\ pc' = [pc EXCEPT ![c] = IF at[c] = NP THEN "answer" ELSE @]
  /\ at' = [at EXCEPT ![c] = IF @ = NP THEN 1 ELSE @ + 1]
  /\ UNCHANGED <<bug, data, turn, writer, lo, rpc, part, started, finished, broken>>

Answer(c) ==
  /\ pc[c] = "answer"
  /\ readers' = readers \ {c}
  /\ broken' = (broken \/ ~ \E v \in lo[c]..started : seen[c] = {v})
  /\ pc' = [pc EXCEPT ![c] = "idle"]
  /\ UNCHANGED <<bug, at, data, turn, writer, seen, lo, rpc, part, started, finished>>

Begin ==
  /\ rpc = "idle" /\ started < NR
  /\ started' = started + 1
  /\ rpc' = CASE bug = "barge" -> "load" [] bug = "starve" -> "wait" [] OTHER -> "turn"
  /\ part' = 1
  /\ UNCHANGED <<bug, at, data, turn, readers, writer, pc, seen, lo, finished, broken>>

TurnR ==
  /\ rpc = "turn" /\ turn = Nobody
  /\ turn' = Refresher /\ rpc' = "wait"
  /\ UNCHANGED <<bug, at, data, readers, writer, pc, seen, lo, part, started, finished, broken>>

EnterR ==
  /\ rpc = "wait" /\ readers = {} /\ ~writer
  /\ writer' = TRUE /\ rpc' = "load"
  /\ UNCHANGED <<bug, at, data, turn, readers, pc, seen, lo, part, started, finished, broken>>

Load ==
  /\ rpc = "load"
  /\ data' = [data EXCEPT ![part] = started]
  \* "early": what comes last is replaced after the lock was given up; "again": the lock is given up between the parts
  /\ LET last == part = NP IN
     /\ writer' = IF last \/ bug = "again" \/ (bug = "early" /\ part = NP - 1) THEN FALSE ELSE writer
     /\ turn' = IF ~writer' /\ turn = Refresher THEN Nobody ELSE turn
     /\ rpc' = IF last THEN "done" ELSE IF bug = "again" THEN "turn" ELSE "load"
     /\ part' = IF last THEN 1 ELSE part + 1
  /\ UNCHANGED <<bug, at, readers, pc, seen, lo, started, finished, broken>>

Told ==
  /\ rpc = "done"
  /\ finished' = started /\ rpc' = "idle"
  /\ UNCHANGED <<bug, at, data, turn, readers, writer, pc, seen, lo, part, started, broken>>

Client(c) == Come(c) \/ TakeTurn(c) \/ Enter(c) \/ Look(c) \/ Answer(c)
Next == (\E c \in Clients : Client(c)) \/ Begin \/ TurnR \/ EnterR \/ Load \/ Told

\* everybody goes on; the turn is a fair mutex; a refresh is asked for in the end
Fair == /\ \A c \in Clients : WF_vars(Come(c)) /\ SF_vars(TakeTurn(c)) /\ WF_vars(Enter(c)) /\ WF_vars(Look(c)) /\ WF_vars(Answer(c))
        /\ WF_vars(Begin) /\ SF_vars(TurnR) /\ WF_vars(EnterR) /\ WF_vars(Load) /\ WF_vars(Told)
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
Whole == ~broken
Exclusive == writer => readers = {}
Sound == bug \in {"none", "starve"} => Whole /\ Exclusive
Caught == (bug # "none" /\ ~Whole) => PrintT(<<"M", bug>>)
Unbroken == Whole

\* every refresh and every request is answered
Refreshed == <>(finished = NR)
Answered == \A c \in Clients : (pc[c] # "idle") ~> (pc[c] = "idle")
Live == bug = "none" => Refreshed
=============================================================================
