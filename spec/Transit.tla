------------------------------ MODULE Transit ------------------------------
(***************************************************************************)
(* The timetable a trRouting server answers from: stops, footpaths, lines, *)
(* trips, scenarios, and the meaning of the query parameters.              *)
(*                                                                         *)
(* A dataset D is a record (see lib/record.py for the JSON encoding):      *)
(*   nn         number of stops, stops are 1..nn                           *)
(*   foot       foot[a] = sequence of <<b, seconds, meters>>               *)
(*   lines      sequence of [agency, mode]                                 *)
(*   trips      sequence of [line, service, nodes, arr, dep, cb, cu, dist] *)
(*              nodes/arr/dep/cb/cu have one entry per stop of the trip    *)
(*   scenarios  sequence of [services, onlyLines, exceptLines, ...]        *)
(*   walk       walk[place][stop] = <<seconds, meters>>, <<-1,-1>> if the  *)
(*              walking router offers nothing                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Infinity == 1000000000

Range(s) == {s[i] : i \in DOMAIN s}

Max2(a, b) == IF a >= b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* Scenario admission.  An empty only-list admits everything; the services *)
(* list of a queried scenario is never empty (that is a query error).      *)

Admits(D, s, t) ==
  LET sc == D.scenarios[s]
      tr == D.trips[t]
      ln == D.lines[tr.line]
      only(list, x)   == list = <<>> \/ x \in Range(list)
      except(list, x) == x \notin Range(list)
  IN  /\ only(sc.services, tr.service)
      /\ only(sc.onlyLines, tr.line)        /\ except(sc.exceptLines, tr.line)
      /\ only(sc.onlyAgencies, ln.agency)   /\ except(sc.exceptAgencies, ln.agency)
      /\ only(sc.onlyModes, ln.mode)        /\ except(sc.exceptModes, ln.mode)

Transferable(D, t) == D.lines[D.trips[t].line].mode = "transferable"

-----------------------------------------------------------------------------
(* Query parameters: p.x is <<>> when omitted, <<v>> when given.           *)
(* Non-positive limits mean "no limit"; the first-waiting cap is disabled  *)
(* by a non-positive value; a negative minimum waiting time is 0.          *)

Limit(p, default) == IF p = <<>> THEN default ELSE IF p[1] <= 0 THEN Infinity ELSE p[1]

MinWaitOf(p)    == IF p.mw = <<>> THEN 180 ELSE MinOf({Max2(p.mw[1], 0), Infinity})
MaxTravelOf(p)  == Limit(p.mt, Infinity)
MaxAccessOf(p)  == Limit(p.ma, 1200)
MaxEgressOf(p)  == Limit(p.me, 1200)
MaxTransferOf(p) == Limit(p.mx, 1200)
FirstCapOf(p)   == IF p.fw = <<>> THEN 1800 ELSE IF p.fw[1] <= 0 THEN 0 ELSE p.fw[1]   \* 0: disabled

\* what the walking router offers at a place within a maximum: stop -> seconds, -1 if nothing
Offered(D, place, max) ==
  [n \in 1..D.nn |-> IF D.walk[place][n][1] >= 0 /\ D.walk[place][n][1] <= max THEN D.walk[place][n][1] ELSE -1]

\* the effective query: everything the traveller machine needs
Query(D, q) ==
  [ s   |-> q.s,
    T   |-> q.T,
    fwd |-> q.fwd,
    W   |-> MinWaitOf(q.p),
    mt  |-> MaxTravelOf(q.p),
    ma  |-> MaxAccessOf(q.p),
    me  |-> MaxEgressOf(q.p),
    mx  |-> MaxTransferOf(q.p),
    fw  |-> FirstCapOf(q.p),
    acc |-> IF q.o = 0 THEN [n \in 1..D.nn |-> -1] ELSE Offered(D, q.o, MaxAccessOf(q.p)),
    egr |-> IF q.d = 0 THEN [n \in 1..D.nn |-> -1] ELSE Offered(D, q.d, MaxEgressOf(q.p)) ]

\* minimum waiting time in force for departures of trip t
Wait(D, Q, t) == IF Transferable(D, t) THEN 0 ELSE Q.W
=============================================================================
