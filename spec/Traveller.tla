----------------------------- MODULE Traveller -----------------------------
(***************************************************************************)
(* The traveller: the labelled transition system every property of an      *)
(* answer is stated against.  A ride segment <<t, i>> is trip t between    *)
(* its i-th and (i+1)-th stop.  An admissible journey is a sequence of     *)
(* segments c1 .. ck with CanStart(c1), CanFollow(cj, cj+1) and            *)
(* CanFinish(ck).  Module TravellerMachine unfolds the same steps as a     *)
(* state machine with explicit time, and TLC checks on all tiny networks   *)
(* that the closures below are exactly its reachable states.               *)
(***************************************************************************)
EXTENDS Transit

From(D, c)  == D.trips[c[1]].nodes[c[2]]
To(D, c)    == D.trips[c[1]].nodes[c[2] + 1]
Dep(D, c)   == D.trips[c[1]].dep[c[2]]
Arr(D, c)   == D.trips[c[1]].arr[c[2] + 1]
MayBoard(D, c)  == D.trips[c[1]].cb[c[2]] = 1
MayAlight(D, c) == D.trips[c[1]].cu[c[2] + 1] = 1

Segments(D) == UNION { {<<t, i>> : i \in 1..(Len(D.trips[t].nodes) - 1)} : t \in 1..Len(D.trips) }

\* segments leaving / reaching each stop
Leaving(D)  == LET S == Segments(D) IN [n \in 1..D.nn |-> {c \in S : From(D, c) = n}]
Reaching(D) == LET S == Segments(D) IN [n \in 1..D.nn |-> {c \in S : To(D, c) = n}]

\* footpath seconds from a to b offered by the data, {} if none; staying at a stop takes 0 s
FootTimes(D, a, b) == {f[2] : f \in {g \in Range(D.foot[a]) : g[1] = b}}

-----------------------------------------------------------------------------
(* Steps *)

\* adm = set of trips the scenario admits
Boardable(D, Q, adm, c, standing) ==
  /\ c[1] \in adm
  /\ MayBoard(D, c)
  /\ Dep(D, c) >= standing + Wait(D, Q, c[1])

\* departure query: leave at Q.T, walk to an offered stop, board c
CanStart(D, Q, adm, c) ==
  LET a == Q.acc[From(D, c)] IN
  /\ a >= 0
  /\ Boardable(D, Q, adm, c, Q.T + a)
  /\ Q.fw > 0 => Dep(D, c) - (Q.T + a) <= Q.fw

Continues(D, c) == IF c[2] + 1 < Len(D.trips[c[1]].nodes) THEN {<<c[1], c[2] + 1>>} ELSE {}
Precedes(D, c)  == IF c[2] > 1 THEN {<<c[1], c[2] - 1>>} ELSE {}

Successors(D, lv, Q, adm, c) ==
  Continues(D, c) \cup
  IF ~MayAlight(D, c) THEN {}
  ELSE UNION { {e \in lv[f[1]] : Boardable(D, Q, adm, e, Arr(D, c) + f[2])} :
               f \in {g \in Range(D.foot[To(D, c)]) : g[2] <= Q.mx} }

\* rev[b] = {<<a, seconds>>} the footpaths into b
FootInto(D) == [b \in 1..D.nn |-> UNION { {<<a, f[2]>> : f \in {g \in Range(D.foot[a]) : g[1] = b}} : a \in 1..D.nn }]

Predecessors(D, rc, fi, Q, adm, c) ==
  Precedes(D, c) \cup
  IF ~MayBoard(D, c) THEN {}
  ELSE UNION { {e \in rc[f[1]] : /\ e[1] \in adm
                                 /\ MayAlight(D, e)
                                 /\ Boardable(D, Q, adm, c, Arr(D, e) + f[2])} :
               f \in {g \in fi[From(D, c)] : g[2] <= Q.mx} }

RECURSIVE FwdClosure(_,_,_,_,_,_)
FwdClosure(D, lv, Q, adm, done, front) ==
  IF front = {} THEN done
  ELSE LET all == done \cup front
           new == (UNION {Successors(D, lv, Q, adm, c) : c \in front}) \ all
       IN  FwdClosure(D, lv, Q, adm, all, new)

RECURSIVE BwdClosure(_,_,_,_,_,_,_)
BwdClosure(D, rc, fi, Q, adm, done, front) ==
  IF front = {} THEN done
  ELSE LET all == done \cup front
           new == (UNION {Predecessors(D, rc, fi, Q, adm, c) : c \in front}) \ all
       IN  BwdClosure(D, rc, fi, Q, adm, all, new)

-----------------------------------------------------------------------------
(* Derived data of a dataset, computed once *)
Derive(D) == [lv |-> Leaving(D), rc |-> Reaching(D), fi |-> FootInto(D),
              adm |-> [s \in 1..Len(D.scenarios) |-> {t \in 1..Len(D.trips) : Admits(D, s, t)}]]

\* segments the traveller can ride on a departure query
Rideable(D, X, Q) ==
  LET adm == X.adm[Q.s]
      start == {c \in UNION {X.lv[n] : n \in {m \in 1..D.nn : Q.acc[m] >= 0}} : CanStart(D, Q, adm, c)}
  IN  FwdClosure(D, X.lv, Q, adm, {}, start)

\* segments from which the destination is reached no later than A (riding the segment to its end)
Usable(D, X, Q, A) ==
  LET adm == X.adm[Q.s]
      last == {c \in UNION {X.rc[n] : n \in {m \in 1..D.nn : Q.egr[m] >= 0}} :
                 c[1] \in adm /\ MayAlight(D, c) /\ Arr(D, c) + Q.egr[To(D, c)] <= A}
  IN  BwdClosure(D, X.rc, X.fi, Q, adm, {}, last)

-----------------------------------------------------------------------------
(* Optima *)

\* arrival times at the destination over all admissible journeys of a departure query
Arrivals(D, Q, ride) ==
  {v \in {Arr(D, c) + Q.egr[To(D, c)] : c \in {e \in ride : MayAlight(D, e) /\ Q.egr[To(D, e)] >= 0}} : v - Q.T <= Q.mt}

\* departure values of journeys arriving by A: first boarding - waiting - access walk
Departures(D, Q, use) ==
  {Dep(D, c) - Wait(D, Q, c[1]) - Q.acc[From(D, c)] : c \in {e \in use : MayBoard(D, e) /\ Q.acc[From(D, e)] >= 0}}

\* a departure that can be caught from an accessible stop within the limits
CatchableDepartures(D, X, Q) ==
  LET adm == X.adm[Q.s] IN
  {c \in UNION {X.lv[n] : n \in {m \in 1..D.nn : Q.acc[m] >= 0}} : CanStart(D, Q, adm, c) /\ Dep(D, c) - Q.T <= Q.mt}

\* a vehicle arrival at an egress stop that is usable for an arrival query
UsableArrivals(D, X, Q) ==
  LET adm == X.adm[Q.s] IN
  {c \in UNION {X.rc[n] : n \in {m \in 1..D.nn : Q.egr[m] >= 0}} :
     c[1] \in adm /\ MayAlight(D, c) /\ Arr(D, c) + Q.egr[To(D, c)] <= Q.T /\ Q.T - Arr(D, c) <= Q.mt}

\* accessibility: stop -> earliest alighting (departure queries), latest arrival at the stop (arrival queries)
EarliestAlight(D, Q, ride, n) == {v \in {Arr(D, c) : c \in {e \in ride : MayAlight(D, e) /\ To(D, e) = n}} : v - Q.T <= Q.mt}
LatestReach(D, Q, use, n) == {v \in {Dep(D, c) - Wait(D, Q, c[1]) : c \in {e \in use : MayBoard(D, e) /\ From(D, e) = n}} : Q.T - v <= Q.mt}
=============================================================================
