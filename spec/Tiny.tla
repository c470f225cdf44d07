-------------------------------- MODULE Tiny --------------------------------
(***************************************************************************)
(* A numbered family of tiny networks and questions.  Number id stands for *)
(* one dataset D and one question q over it (see Transit); everything in   *)
(* it is picked from a few small values, so that ties, missed and caught   *)
(* transfers, revisited stops, forbidden boardings and excluded lines are  *)
(* all frequent.  Hop times are positive.                                  *)
(***************************************************************************)
EXTENDS Traveller, TLC

P == 46337
Mix(h, x) == (h * 7919 + x * 104 + 12345) % P
Sq(h) == (h * h + 1) % P
Rnd(id, salt) == Sq(Mix(Sq(Mix(Sq(Mix(id % P, salt)), id \div P)), 3 * salt + 1))
\* a number from 0 to k - 1
Pick(id, salt, k) == (Rnd(id, salt) \div 5) % k
OneIn(id, salt, k) == Pick(id, salt, k) = 0

NN == 5
Base == 36000

RECURSIVE StopSeq(_,_,_,_)
StopSeq(id, salt, k, first) ==
  IF k = 1 THEN <<first>>
  ELSE LET s == StopSeq(id, salt, k - 1, first)
           last == s[k - 1]
       IN  Append(s, 1 + ((last + Pick(id, salt + k, NN - 1)) % NN))

RECURSIVE TimesFrom(_,_,_,_)
\* <<arr, dep>> for stops 1..k
TimesFrom(id, salt, k, t0) ==
  IF k = 1 THEN <<<<t0>>, <<t0>>>>
  ELSE LET p == TimesFrom(id, salt, k - 1, t0)
           a == p[2][k - 1] + 1 + Pick(id, salt + 10 + k, 3)
           d == a + (IF OneIn(id, salt + 20 + k, 3) THEN 1 ELSE 0)
       IN  <<Append(p[1], a), Append(p[2], d)>>

Stopped(id, salt, line, ns, ts) ==
  LET k == Len(ns) IN
  [line |-> line, service |-> 1, nodes |-> ns, arr |-> ts[1], dep |-> ts[2],
   cb |-> TLCEval([i \in 1..k |-> IF OneIn(id, salt + 40 + i, 9) THEN 0 ELSE 1]),
   cu |-> TLCEval([i \in 1..k |-> IF OneIn(id, salt + 50 + i, 9) THEN 0 ELSE 1]),
   dist |-> TLCEval([i \in 1..(k - 1) |-> 100 * i + line])]
TripOf(id, j, nl) ==
  LET salt == 100 * j
      k == 2 + Pick(id, salt, 3)
      ns == TLCEval(StopSeq(id, salt + 30, k, 1 + Pick(id, salt + 31, NN)))
      ts == TLCEval(TimesFrom(id, salt, k, Base + Pick(id, salt + 2, 14)))
  IN  Stopped(id, salt, 1 + Pick(id, salt + 3, nl), ns, ts)

\* every third network: vehicles one after the other, mostly each leaving from where the one before ended, so that
\* journeys of several rides come about that overshoot, come back and pass the same stops twice
RECURSIVE Relay(_,_,_)
Relay(id, j, nl) ==
  LET salt == 100 * j
      k == 2 + Pick(id, salt, 4)
      before == IF j = 1 THEN <<>> ELSE Relay(id, j - 1, nl)
      p == before[j - 1]
      ns == TLCEval(StopSeq(id, salt + 30, k, IF j = 1 THEN 1 ELSE IF OneIn(id, salt + 4, 4) THEN 1 + Pick(id, salt + 31, NN) ELSE p.nodes[Len(p.nodes)]))
      ts == TLCEval(TimesFrom(id, salt, k, IF j = 1 THEN Base ELSE p.arr[Len(p.arr)] + Pick(id, salt + 2, 4) - 1))
  IN  Append(before, Stopped(id, salt, IF OneIn(id, salt + 3, 6) THEN 1 ELSE 1 + ((j - 1) % nl), ns, ts))
IsRelay(id) == id % 3 = 0

RECURSIVE FootFrom(_,_,_)
FootFrom(id, a, b) ==
  IF b = 0 THEN <<<<a, 0, 0>>>>
  ELSE FootFrom(id, a, b - 1) \o
       (IF b # a /\ OneIn(id, 1000 + 10 * a + b, 3) THEN <<<<b, 1 + Pick(id, 1100 + 10 * a + b, 3), 10 * a + b>>>> ELSE <<>>)

\* origin and destination are mostly near different stops, so that changes of vehicle are needed
WalkOf(id, salt, near) ==
  TLCEval([n \in 1..NN |-> IF (IF n \in near THEN Pick(id, salt + n, 5) < 3 ELSE OneIn(id, salt + n, 8)) THEN <<Pick(id, salt + 10 + n, 4), 7 * n>> ELSE <<-1, -1>>])

Only(n, t) == TLCEval([m \in 1..NN |-> IF m = n THEN <<t, 9>> ELSE <<-1, -1>>])

Scenario(only, except) == [services |-> <<1>>, onlyLines |-> only, exceptLines |-> except, onlyAgencies |-> <<>>, exceptAgencies |-> <<>>,
                           onlyModes |-> <<>>, exceptModes |-> <<>>, onlyNodes |-> <<>>, exceptNodes |-> <<>>]

Net(id) ==
  LET nt == 3 + Pick(id, 1, 4)
      nl == IF IsRelay(id) THEN 3 ELSE 1 + Pick(id, 2, 3)
      trips == TLCEval(Relay(id, IF nt > 4 THEN 4 ELSE nt, nl))
      end == LET t == trips[Len(trips)] IN t.nodes[Len(t.nodes) - Pick(id, 8, 2)]
      trans == Pick(id, 3, 4) = 0
  IN  [nn |-> NN,
       foot |-> TLCEval([a \in 1..NN |-> FootFrom(id, a, NN)]),
       lines |-> TLCEval([l \in 1..nl |-> [agency |-> 1, mode |-> IF trans /\ l = 1 THEN "transferable" ELSE "bus"]]),
       trips |-> IF IsRelay(id) THEN trips ELSE TLCEval([j \in 1..nt |-> TripOf(id, j, nl)]),
       scenarios |-> <<IF OneIn(id, 4, 4) THEN Scenario(<<>>, <<1 + Pick(id, 5, nl)>>)
                       ELSE IF OneIn(id, 6, 4) THEN Scenario(<<1 + Pick(id, 7, nl)>>, <<>>) ELSE Scenario(<<>>, <<>>)>>,
       walk |-> IF IsRelay(id) THEN <<Only(1, Pick(id, 1201, 3)), Only(end, Pick(id, 1301, 3))>> ELSE <<WalkOf(id, 1200, {1, 2}), WalkOf(id, 1300, {3, 4})>>]

Opt(id, salt, vs) == vs[1 + Pick(id, salt, Len(vs))]
Ask(id) ==
  LET fwd == OneIn(id, 10, 2)
      relay == IsRelay(id)
  IN
  [s |-> 1, o |-> 1, d |-> 2, fwd |-> fwd,
   T |-> IF fwd THEN Base - 4 + Pick(id, 11, IF relay THEN 3 ELSE 12) ELSE IF relay THEN Base + 12 + Pick(id, 12, 40) ELSE Base + 6 + Pick(id, 12, 24),
   p |-> [mw |-> <<Opt(id, 13, IF relay THEN <<0, 0, 1>> ELSE <<0, 1, 1, 2>>)>>, mt |-> <<IF relay THEN 0 ELSE Opt(id, 14, <<0, 0, 0, 8, 12>>)>>,
          ma |-> <<IF relay THEN 0 ELSE Opt(id, 15, <<0, 0, 0, 2>>)>>, me |-> <<IF relay THEN 0 ELSE Opt(id, 16, <<0, 0, 0, 2>>)>>,
          mx |-> <<Opt(id, 17, <<0, 0, 1, 2>>)>>, fw |-> <<Opt(id, 18, <<0, 0, 0, 1, 4>>)>>]]

Segs(D) == Segments(D)
=============================================================================
