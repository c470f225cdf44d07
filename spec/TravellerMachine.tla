-------------------------- MODULE TravellerMachine --------------------------
(***************************************************************************)
(* The traveller by the clock.  All the travellers who may exist move at   *)
(* once through a tiny network (module Tiny), second by second: vehicles   *)
(* arrive, people get off, walk and stand at stops, vehicles leave with    *)
(* those who may board.  The closures of module Traveller, which judge the *)
(* answers of the real server, must say exactly what happens here:         *)
(*  from = <<>>  everybody starts at the origin of the question            *)
(*  from = seg   everybody starts aboard a vehicle on that segment         *)
(* on: vehicles with travellers in them; stand: stop -> since when people  *)
(* stand there (time, from the origin?); there: times they reach the end.  *)
(***************************************************************************)
EXTENDS Tiny

CONSTANTS First, Upto

VARIABLES id, net, from, clock, half, on, rode, stand, off, there
vars == <<id, net, from, clock, half, on, rode, stand, off, there>>

D == net.D
Q == net.Q
Adm == net.adm
End == net.end

None == [none |-> TRUE]
Init == /\ id \in First..Upto /\ net = None /\ from = <<>> /\ half = "build" /\ clock = 0
        /\ rode = {} /\ on = {} /\ stand = <<>> /\ off = <<>> /\ there = {}
Build ==
  /\ half = "build" /\ half' = "arrive"
  /\ \E DD \in {TLCEval(Net(id))} : \E q \in {TLCEval(Query(DD, Ask(id)))} :
     \E f \in {<<>>} \cup {c \in Segments(DD) : Admits(DD, 1, c[1])} :
       /\ net' = [D |-> DD, Q |-> q, adm |-> {t \in 1..Len(DD.trips) : Admits(DD, 1, t)},
                  end |-> MaxOf({0} \cup {Arr(DD, c) : c \in Segments(DD)})] /\ from' = f
       /\ rode' = (IF f = <<>> THEN {} ELSE {f}) /\ on' = (IF f = <<>> THEN {} ELSE {f[1]})
       /\ clock' = (IF f = <<>> THEN q.T ELSE Arr(DD, f))
       /\ stand' = [n \in 1..NN |-> IF f = <<>> /\ q.acc[n] >= 0 THEN {<<q.T + q.acc[n], TRUE>>} ELSE {}]
       /\ off' = [n \in 1..NN |-> {}]
  /\ UNCHANGED <<id, there>>

\* vehicles with travellers arrive now; who may get off stands here, or walks on and stands elsewhere later
Arrive ==
  /\ half = "arrive" /\ clock <= End
  /\ LET now == {c \in rode : Arr(D, c) = clock}
         out == {c \in now : MayAlight(D, c)}
         stops == {To(D, c) : c \in out}
         reach(n) == {<<clock + f[2], FALSE>> : f \in UNION {{g \in Range(D.foot[m]) : g[1] = n /\ g[2] <= Q.mx} : m \in stops}}
     IN  /\ stand' = [n \in 1..NN |-> stand[n] \cup reach(n)]
         /\ off' = [n \in 1..NN |-> IF n \in stops THEN off[n] \cup {clock} ELSE off[n]]
         /\ there' = there \cup {clock + Q.egr[n] : n \in {m \in stops : Q.egr[m] >= 0}}
         /\ on' = on \ {c[1] : c \in {e \in now : e[2] + 1 = Len(D.trips[e[1]].nodes)}}
  /\ half' = "depart" /\ UNCHANGED <<id, net, from, clock, rode>>

\* vehicles leave now, with those aboard and those who stand here long enough (and, from the origin, not too long)
Depart ==
  /\ half = "depart"
  /\ LET able(c) == \E s \in stand[From(D, c)] :
                       /\ s[1] + Wait(D, Q, c[1]) <= clock
                       /\ s[2] /\ Q.fw > 0 => clock - s[1] <= Q.fw
         gone == {c \in Segments(D) : Dep(D, c) = clock /\ c[1] \in Adm /\ (c[1] \in on \/ (MayBoard(D, c) /\ able(c)))}
     IN  on' = on \cup {c[1] : c \in gone} /\ rode' = rode \cup gone
  /\ clock' = clock + 1 /\ half' = "arrive" /\ UNCHANGED <<id, net, from, stand, off, there>>

Next == Build \/ Arrive \/ Depart
View == <<id, from, clock, half, on, rode, stand, off, there>>
Spec == Init /\ [][Next]_vars

Over == half # "build" /\ clock > End /\ half = "arrive"
X == Derive(D)
\* the closures of a departure question
ForwardSame ==
  Over /\ from = <<>> =>
    /\ rode = Rideable(D, X, Q)
    /\ Arrivals(D, Q, rode) = {v \in there : v - Q.T <= Q.mt}
    /\ \A n \in 1..NN : EarliestAlight(D, Q, rode, n) = {v \in off[n] : v - Q.T <= Q.mt}
    /\ (rode # {} => CatchableDepartures(D, X, [Q EXCEPT !.mt = Infinity]) # {})
\* and of an arrival question: from which segments the end is reached by T, or by other times
BackwardSame ==
  Over /\ from # <<>> =>
    \A A \in {Q.T, Base + 12, Base + 20} : (from \in Usable(D, X, Q, A)) <=> (\E v \in there : v <= A)
=============================================================================
