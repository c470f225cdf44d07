------------------------------- MODULE Router -------------------------------
(***************************************************************************)
(* Requests and the walking router (C20).                                  *)
(*                                                                         *)
(* A request asks the router for the stops around each of its places, one  *)
(* lookup after the other.  A lookup is answered by the full table, or it  *)
(* meets a fault: then it yields no stops ("none") or ends the request     *)
(* ("bad").  A lookup never sees anything but the reply to it: nothing of  *)
(* a fault survives the request it happened to, and no other request in    *)
(* flight notices.                                                         *)
(*                                                                         *)
(* refuse: from now on, and until this request is answered, connections    *)
(* are refused, so all its further lookups fail at once.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NT,          \* requests that may be in flight together
          NP,          \* places
          MaxFaults,   \* faults in a behaviour (exhaustive search)
          Names,       \* faults used
          Len_,        \* length of the printed histories (0: none are kept)
          Bugs

Threads == 1..NT
Places == 1..NP
Shapes == {<<p>> : p \in Places} \cup {<<p, q>> : p \in Places, q \in Places}
Requests == {r \in Shapes : Len(r) = 1 \/ r[1] # r[2]}

\* what the statement lists, and (Odd) replies nobody promises anything about except survival
Gone == {"refuse", "drop", "reset", "cuthead", "cutbody", "cutchunk", "status"}
Garbled == {"cutlen", "cutopen", "empty", "notjson", "nodurations", "null"}
Short == {"fewer"}
Vague == {"nulldist"}       \* may leave the reply usable
Odd == {"odd"}
Reconnects == {"drop", "reset", "cuthead"}
Faults == Gone \cup Garbled \cup Short \cup Vague \cup Odd
ASSUME Names \subseteq Faults

VARIABLES bug,
          req,       \* thread -> [todo: places not looked up yet, got: outcomes, faults: of the replies]; todo = got = <<>>: idle
          dead, down, memo, leaks, poison, good,       \* what wrong variants remember between requests
          faults,    \* number of faults so far
          last,      \* the request answered last: [faults, got]
          hist
vars == <<bug, req, dead, down, memo, leaks, poison, good, faults, last, hist>>
view == <<bug, req, dead, down, memo, leaks, poison, good, faults, last>>

Idle == [todo |-> <<>>, got |-> <<>>, faults |-> <<>>]
Fresh == [faults |-> <<>>, got |-> "same"]

Init ==
  /\ bug \in Bugs
  /\ req = [t \in Threads |-> Idle]
  /\ dead = FALSE /\ down = FALSE /\ memo = [p \in Places |-> "-"] /\ leaks = 0 /\ poison = FALSE /\ good = FALSE
  /\ faults = 0 /\ last = Fresh /\ hist = <<>>

\* what a lookup can make of a reply
Outcomes(f) == CASE f = "ok" -> {"full"}
                 [] f \in Reconnects -> {"none", "again"}
                 [] f \in Gone -> {"none"}
                 [] f \in Garbled -> IF bug = "die" THEN {"dies"} ELSE {"none", "bad"}
                 [] f \in Short -> IF bug = "part" THEN {"part"} ELSE {"none", "bad"}
                 [] f \in Vague \cup Odd -> {"none", "bad", "full"}

Seen(o, p, f) ==
  CASE bug = "sticky" /\ down -> "none"
    [] bug = "memo" /\ memo[p] # "-" -> memo[p]
    [] bug = "stale" /\ o = "none" /\ good -> "stale"
    [] bug = "leak" /\ leaks > 2 -> "none"
    [] bug = "swallow" /\ f = "status" -> "stale"
    [] OTHER -> o

\* of the outcomes of the lookups of a request
AnswerOf(got) == LET s == {got[i] : i \in DOMAIN got} IN
  CASE "dies" \in s -> "dead"
    [] poison -> "error"
    [] "bad" \in s -> "error"
    [] "none" \in s -> "noroute"
    [] "stale" \in s \/ "part" \in s -> "success"
    [] OTHER -> "same"

Busy(t) == req[t].todo # <<>>
PlacesOf(r) == {r[i] : i \in DOMAIN r}
Taken == UNION {PlacesOf(req[t].todo) : t \in Threads}

Log(e) == hist' = IF Len_ = 0 THEN hist ELSE Append(hist, e)

Finished(r) == r.todo = <<>> \/ (r.got # <<>> /\ r.got[Len(r.got)] \in {"bad", "dies"})

\* the lookup of the first place of r meets f, with outcome o
After(r, f, o) == IF o = "again" THEN r ELSE
  [todo |-> Tail(r.todo), got |-> Append(r.got, Seen(o, r.todo[1], f)), faults |-> Append(r.faults, f)]
Rest(r) == [r EXCEPT !.todo = <<>>, !.got = @ \o [i \in 1..Len(r.todo) |-> "none"], !.faults = @ \o [i \in 1..Len(r.todo) |-> "refuse"]]

Settle(t, r) ==
  /\ req' = [req EXCEPT ![t] = IF Finished(r) THEN Idle ELSE r]
  /\ last' = IF Finished(r) THEN [faults |-> r.faults, got |-> AnswerOf(r.got)] ELSE Fresh
  /\ dead' = (dead \/ (Finished(r) /\ AnswerOf(r.got) = "dead"))

Remember(p, f, o) ==
  /\ down' = (bug = "sticky" /\ ~down /\ f # "ok")
  /\ memo' = IF bug = "memo" THEN [memo EXCEPT ![p] = o] ELSE memo
  /\ leaks' = IF bug = "leak" /\ f # "ok" /\ leaks < 3 THEN leaks + 1 ELSE leaks
  /\ poison' = ((bug = "keepbad" /\ (poison \/ o = "bad")) \/ (bug = "global" /\ o = "bad" /\ Cardinality({t \in Threads : Busy(t)}) > 1))
  /\ good' = (bug = "stale" /\ (good \/ f = "ok"))

Start(t, r, refuse) ==
  /\ ~Busy(t) /\ PlacesOf(r) \cap Taken = {}
  /\ LET n == [todo |-> r, got |-> <<>>, faults |-> <<>>] IN Settle(t, IF refuse THEN Rest(n) ELSE n)
  /\ faults' = faults + IF refuse THEN 1 ELSE 0
  /\ Log(<<"S", t, r, refuse>>)
  /\ UNCHANGED <<bug, down, memo, leaks, poison, good>>

Reply(t, f, refuse) ==
  /\ Busy(t)
  /\ refuse => Len(req[t].todo) > 1 /\ f = "ok"
  /\ \E o \in Outcomes(f) :
       LET n == After(req[t], f, o) IN
       /\ Settle(t, IF refuse /\ ~Finished(n) THEN Rest(n) ELSE n)
       /\ Remember(req[t].todo[1], f, o)
  /\ faults' = faults + (IF f # "ok" THEN 1 ELSE 0) + IF refuse THEN 1 ELSE 0
  /\ Log(<<"L", t, f, refuse>>)
  /\ UNCHANGED bug

Next ==
  /\ Len_ > 0 => Len(hist) < Len_
  /\ ~dead
  /\ \E t \in Threads :
       \/ \E r \in Requests, refuse \in {FALSE} \cup (IF "refuse" \in Names THEN {TRUE} ELSE {}) : Start(t, r, refuse)
       \/ \E f \in {"ok"} \cup (Names \ {"refuse"}), refuse \in {FALSE} \cup (IF "refuse" \in Names THEN {TRUE} ELSE {}) : Reply(t, f, refuse)
  /\ faults' <= MaxFaults

Spec == Init /\ [][Next]_vars

\* what C20 allows as answer to a request whose lookups met the given replies
Allowed(met) == LET s == met \ {"ok"} IN
  IF s = {} THEN {"same"}
  ELSE IF s \subseteq Odd \cup Vague THEN {"same", "noroute", "error"} \cup (IF s \cap Odd # {} THEN {"success"} ELSE {})
  ELSE {"noroute", "error"}

Right == last.got \in Allowed({last.faults[i] : i \in DOMAIN last.faults})
Degrades == bug = "none" => Right /\ ~dead
\* a wrong variant is followed up to its first wrong answer
Unbroken == Right
Caught == (bug # "none" /\ ~Right) => PrintT(<<"M", bug, last.got>>)

\* printed histories: mostly healthy exchanges, faults in small groups, so that recoveries are seen
Ls == Len(SelectSeq(hist, LAMBDA e : e[1] = "L"))
Ss == Len(SelectSeq(hist, LAMBDA e : e[1] = "S"))
Shape == LET e == hist'[Len(hist')] IN
  /\ e[1] = "S" => (e[4] => Ss % 4 = 3)
  /\ e[1] = "L" => (Ls % 6 \in {0, 1, 2} => e[3] = "ok" /\ ~e[4])
ShowHist == Len_ > 0 /\ Len(hist) = Len_ => PrintT(<<"S", ToString(hist)>>)
=============================================================================
