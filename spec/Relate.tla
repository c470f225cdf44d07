------------------------------- MODULE Relate -------------------------------
(***************************************************************************)
(* Relations between two executions of the real server (C11, C12).         *)
(*                                                                         *)
(* A pair relates two datasets: the second is the first with the trips a   *)
(* scenario excludes deleted ("restrict"), or with every scheduled time    *)
(* moved ("shift").  TLC first checks that the pair really is so related   *)
(* (with the same Admits the traveller uses), then that the two recorded   *)
(* answers of every related pair of requests are related.                  *)
(***************************************************************************)
EXTENDS Traveller, TLC, TLCExt, Json, IOUtils

File  == ndJsonDeserialize(IOEnv.TRACE)
DS    == File[1]
Pairs == File[2]     \* [id, a, b, rel, off, s, s2]
Cases == File[3]     \* [id, pair, a, b] two recorded cases (see Answers)

VARIABLES k, what, done
vars == <<k, what, done>>

If(cond, clause) == IF cond THEN {} ELSE {clause}
Clock(v) == v >= 0 /\ v < 32 * 3600

-----------------------------------------------------------------------------
(* The datasets *)

Without(D, s) == LET all == [i \in 1..Len(D.trips) |-> i]
                     keep == SelectSeq(all, LAMBDA t : Admits(D, s, t))
                 IN  [i \in 1..Len(keep) |-> D.trips[keep[i]]]

Same(A, B) == A.nn = B.nn /\ A.foot = B.foot /\ A.lines = B.lines /\ A.walk = B.walk

Moved(tr, off) == [tr EXCEPT !.arr = [i \in DOMAIN @ |-> @[i] + off], !.dep = [i \in DOMAIN @ |-> @[i] + off]]

PairOK(p) ==
  LET A == DS[p.a]  B == DS[p.b] IN
  /\ Same(A, B)
  /\ IF p.rel = "restrict"
     THEN /\ B.trips = Without(A, p.s)
          /\ \A t \in 1..Len(B.trips) : Admits(B, p.s2, t)
     ELSE /\ A.scenarios = B.scenarios
          /\ B.trips = [t \in 1..Len(A.trips) |-> Moved(A.trips[t], p.off)]
          /\ \A X \in {A, B} : \A t \in 1..Len(X.trips) : \A i \in DOMAIN X.trips[t].arr :
               Clock(X.trips[t].arr[i]) /\ Clock(X.trips[t].dep[i])

-----------------------------------------------------------------------------
(* The requests *)

RequestsOK(p, a, b) ==
  /\ a.ep = b.ep /\ a.o = b.o /\ a.d = b.d /\ a.fwd = b.fwd /\ a.p = b.p
  /\ (a.ep = "route" => a.alt = b.alt)
  /\ IF p.rel = "restrict" THEN a.T = b.T /\ a.s = p.s /\ b.s = p.s2
     ELSE a.s = b.s /\ b.T = a.T + p.off /\ Clock(a.T) /\ Clock(b.T)

-----------------------------------------------------------------------------
(* C11: objective fields *)

MapOf(x) == {<<x.nodes[i].n, x.nodes[i].t, x.nodes[i].ttt>> : i \in 1..Len(x.nodes)}

Restricted(a, b) ==
  If(a.status = b.status, "C11.status")
  \cup If(a.status # b.status \/ a.reason = b.reason, "C11.reason")
  \cup (IF a.status = "success" /\ b.status = "success"
        THEN IF a.ep = "access" THEN If(MapOf(a) = MapOf(b), "C11.map")
             ELSE If(Len(a.routes) >= 1 /\ Len(b.routes) >= 1 /\ a.routes[1].arr = b.routes[1].arr, "C11.arrival")
                  \cup If(Len(a.routes) >= 1 /\ Len(b.routes) >= 1 /\ a.routes[1].dep = b.routes[1].dep, "C11.departure")
        ELSE {})

-----------------------------------------------------------------------------
(* C12: everything, moved *)

MoveStep(s, o) == IF s.a = "walk" THEN [s EXCEPT !.dep = @ + o, !.arr = @ + o, !.ready = IF s.k = "egress" THEN @ ELSE @ + o]
                  ELSE [s EXCEPT !.t = @ + o]
MoveRoute(r, o) == [r EXCEPT !.dep = @ + o, !.arr = @ + o, !.steps = [i \in DOMAIN @ |-> MoveStep(@[i], o)]]
MoveNode(n, o) == [n EXCEPT !.t = @ + o]
MovedNodes(x, o) == {MoveNode(x.nodes[i], o) : i \in 1..Len(x.nodes)}

StepClock(s) == IF s.a = "walk" THEN Clock(s.dep) /\ Clock(s.arr) ELSE Clock(s.t)
\* every clock value of the answer, once moved by o
AnswerClock(x, o) ==
  IF x.status # "success" THEN TRUE
  ELSE IF x.ep = "access" THEN \A n \in MovedNodes(x, o) : Clock(n.t)
  ELSE \A i \in 1..Len(x.routes) : LET r == MoveRoute(x.routes[i], o) IN
         Clock(r.dep) /\ Clock(r.arr) /\ \A j \in 1..Len(r.steps) : StepClock(r.steps[j])

\* a search among alternatives that leave before 0:00 is cut off in one of the two and not in the other
NoCut(D, x) == x.fwd \/ x.ep # "route" \/ ~x.alt
               \/ \A t \in 1..Len(D.trips) : D.trips[t].dep[1] >= 7200

InClock(p, a, b) ==
  /\ AnswerClock(a, 0) /\ AnswerClock(a, p.off) /\ AnswerClock(b, 0) /\ AnswerClock(b, -p.off)
  /\ NoCut(DS[p.a], a) /\ NoCut(DS[p.b], b)

Shifted(p, a, b) ==
  If(a.status = b.status, "C12.status")
  \cup If(a.status # b.status \/ a.reason = b.reason, "C12.reason")
  \cup (IF a.status = "success" /\ b.status = "success"
        THEN IF a.ep = "access"
             THEN If(MovedNodes(a, p.off) = MovedNodes(b, 0) /\ Len(a.nodes) = Len(b.nodes) /\ a.total = b.total, "C12.map")
             ELSE If(Len(a.routes) = Len(b.routes), "C12.routes")
                  \cup If(a.total = b.total, "C12.total")
                  \cup If(Len(a.routes) # Len(b.routes)
                          \/ \A i \in 1..Len(a.routes) : MoveRoute(a.routes[i], p.off) = b.routes[i], "C12.route")
        ELSE {})

-----------------------------------------------------------------------------
Init == \/ what = "pair" /\ k \in 1..Len(Pairs) /\ done = FALSE
        \/ what = "case" /\ k \in 1..Len(Cases) /\ done = FALSE

JudgePair == what = "pair" /\ IF PairOK(Pairs[k]) THEN TRUE ELSE PrintT(<<"V", Pairs[k].id, {"machinery.pair"}>>)

JudgeCase ==
  LET cs == Cases[k]  p == Pairs[cs.pair]  a == cs.a  b == cs.b
      v == IF ~RequestsOK(p, a, b) THEN {"machinery.request"}
           ELSE IF p.rel = "restrict" THEN Restricted(a, b)
           ELSE IF InClock(p, a, b) THEN Shifted(p, a, b) ELSE {"skip"}
  IN  what = "case" /\ IF v = {} THEN TRUE ELSE PrintT(<<"V", cs.id, v>>)

Next == ~done /\ (JudgePair \/ JudgeCase) /\ done' = TRUE /\ UNCHANGED <<k, what>>

Spec == Init /\ [][Next]_vars
=============================================================================
