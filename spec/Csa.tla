--------------------------------- MODULE Csa ---------------------------------
(***************************************************************************)
(* The connection scan that answers a question: one pass forward over the  *)
(* segments by departure (departure questions), one pass backward by       *)
(* arrival (all route questions, accessibility by arrival time), one state *)
(* per segment looked at.  On the numbered tiny networks its answers must  *)
(* be those the closures of module Traveller allow.                        *)
(*                                                                         *)
(* bug names a deliberately wrong scan.  Networks on which a wrong scan    *)
(* answers wrongly are printed as <<"N", bug, id, ep>>: the real server is *)
(* asked the same question on the same network.                            *)
(***************************************************************************)
EXTENDS Tiny, TLCExt, SequencesExt, Json, IOUtils

CONSTANTS First, Upto, Bugs
\* a file of triples <<bug, id, ep>> to look at, instead of the range
Listed == IF "LIST" \in DOMAIN IOEnv THEN LET t == ndJsonDeserialize(IOEnv.LIST)[1] IN {<<t[i][1], t[i][2], t[i][3]>> : i \in 1..Len(t)} ELSE {}

VARIABLES id, ep, bug, net, k, pass,
          tent, enter, usable, egress, tentEgress,   \* forward pass
          back, exit, exitFoot, steps, access, tentAccess, \* backward pass
          count, res
vars == <<id, ep, bug, net, k, pass, tent, enter, usable, egress, tentEgress, back, exit, exitFoot, steps, access, tentAccess, count, res>>

D == net.D
Q == net.Q
B(b) == bug = b

FwdOrder(S, DD) == SetToSortSeq(S, LAMBDA a, b : IF Dep(DD, a) # Dep(DD, b) THEN Dep(DD, a) < Dep(DD, b) ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE a[2] < b[2])
BwdOrder(S, DD) == SetToSortSeq(S, LAMBDA a, b : IF Arr(DD, a) # Arr(DD, b) THEN Arr(DD, a) > Arr(DD, b) ELSE IF a[1] # b[1] THEN a[1] > b[1] ELSE a[2] > b[2])
Offers(a) == {n \in 1..NN : a[n] >= 0}
Most(a) == IF Offers(a) = {} THEN -1 ELSE MaxOf({a[n] : n \in Offers(a)})
Least(a) == IF Offers(a) = {} THEN Infinity ELSE MinOf({a[n] : n \in Offers(a)})

None == [none |-> TRUE]
Trips == 1..Len(D.trips)
Reset(DD) == [t \in 1..Len(DD.trips) |-> <<>>]

Blank == /\ net = None /\ k = 1 /\ tent = <<>> /\ enter = <<>> /\ usable = {} /\ egress = <<>> /\ tentEgress = Infinity
         /\ back = <<>> /\ exit = <<>> /\ exitFoot = <<>> /\ steps = <<>> /\ access = <<>> /\ tentAccess = -1
         /\ count = 0 /\ res = None
\* the triples <<bug, id, ep>> looked at: all those of a range, or listed ones
Init == /\ pass = "build" /\ Blank
        /\ IF Listed = {} THEN id \in First..Upto /\ bug = "any" /\ ep = "any"
           ELSE \E c \in Listed : bug = c[1] /\ id = c[2] /\ ep = c[3]

Orders(DD, S) == [f |-> FwdOrder(S, DD), b |-> BwdOrder(S, DD)]
Made(DD, i) ==
  LET a == Ask(i) IN
  [D |-> DD, route |-> Query(DD, a), access |-> Query(DD, [a EXCEPT !.o = IF a.fwd THEN 1 ELSE 0, !.d = IF a.fwd THEN 0 ELSE 2]),
   in |-> Orders(DD, {c \in Segments(DD) : Admits(DD, 1, c[1])}), all |-> Orders(DD, Segments(DD))]
Build ==
  /\ pass = "build" /\ pass' = "start"
  /\ \E DD \in {TLCEval(Net(id))} : \E m \in {TLCEval(Made(DD, id))} :
       \E b \in (IF bug = "any" THEN Bugs ELSE {bug}), e \in (IF ep = "any" THEN {"route", "access"} ELSE {ep}) :
         LET w == IF b = "scenario" THEN m.all ELSE m.in
         IN  bug' = b /\ ep' = e /\ net' = [D |-> DD, Q |-> m[e], f |-> w.f, b |-> w.b, T |-> m[e].T]
  /\ UNCHANGED <<id, k, tent, enter, usable, egress, tentEgress, back, exit, exitFoot, steps, access, tentAccess, count, res>>

View == <<id, ep, bug, k, pass, IF net = None THEN 0 ELSE net.T, tent, enter, usable, egress, tentEgress, back, exit, exitFoot, steps, access, tentAccess, count, res>>

Fail(r) == [ok |-> FALSE, reason |-> r]
NoAccess ==
  IF ep = "route" THEN (CASE Offers(Q.acc) = {} /\ Offers(Q.egr) = {} -> "NO_ACCESS_AT_ORIGIN_AND_DESTINATION"
                          [] Offers(Q.acc) = {} -> "NO_ACCESS_AT_ORIGIN" [] Offers(Q.egr) = {} -> "NO_ACCESS_AT_DESTINATION" [] OTHER -> "")
  ELSE IF Offers(IF Q.fwd THEN Q.acc ELSE Q.egr) = {} THEN "NO_ACCESS_AT_PLACE" ELSE ""

StartBack(T) == [n \in 1..NN |-> IF Q.egr[n] >= 0 THEN T - Q.egr[n] ELSE -1]
Start ==
  /\ pass = "start"
  /\ IF NoAccess # "" THEN res' = Fail(NoAccess) /\ pass' = "done" /\ UNCHANGED <<tent, enter, usable, egress, back, exit, exitFoot, steps, access>>
     ELSE /\ pass' = (IF Q.fwd THEN "fwd" ELSE "bwd") /\ res' = None
          /\ tent' = [n \in 1..NN |-> IF Q.acc[n] >= 0 THEN Q.T + Q.acc[n] ELSE Infinity]
          /\ enter' = Reset(D) /\ egress' = [n \in 1..NN |-> <<>>]
          /\ usable' = (IF Q.fwd THEN {} ELSE Trips)
          /\ back' = StartBack(Q.T) /\ exit' = Reset(D) /\ exitFoot' = Reset(D)
          /\ steps' = [n \in 1..NN |-> <<>>] /\ access' = [n \in 1..NN |-> <<>>]
  /\ UNCHANGED <<id, ep, bug, net, k, tentEgress, tentAccess, count>>

\* forward: the walks from the end of segment c to other stops (fold over the list of footpaths of the stop)
RECURSIVE Spread(_,_,_,_)
Spread(te, eg, c, fs) ==
  IF fs = <<>> THEN <<te, eg>>
  ELSE LET f == Head(fs)
           n == f[1]
           here == To(D, c)
           late == n # here /\ te[n] < Arr(D, c)
           far == f[2] > Q.mx /\ ~B("farwalk")
           t == Arr(D, c) + f[2]
           te2 == IF late \/ far THEN te ELSE IF (IF B("worsewalk") THEN te[n] = Infinity \/ n = here ELSE t < te[n]) THEN [te EXCEPT ![n] = t] ELSE te
           eg2 == IF n = here /\ ~far /\ (eg[n] = <<>> \/ (IF B("lastexit") THEN TRUE ELSE IF B("firstexit") THEN FALSE ELSE eg[n][1] > Arr(D, c)))
                  THEN [eg EXCEPT ![n] = <<Arr(D, c)>>] ELSE eg
       IN  Spread(te2, eg2, c, Tail(fs))

ForwardEnds(c) ==
  \/ /\ ep = "route" /\ tentEgress < Infinity
     /\ Dep(D, c) > tentEgress + (IF B("noegress") THEN 0 ELSE Most(Q.egr))
  \/ Dep(D, c) - Q.T > (IF B("halflimit") THEN Q.mt \div 2 ELSE Q.mt)

Forward ==
  /\ pass = "fwd" /\ k <= Len(net.f)
  /\ LET c == net.f[k]
         t == c[1]
         n == From(D, c)
         w == IF B("nowait") \/ (B("waitonce") /\ Q.acc[n] < 0) THEN 0 ELSE IF B("transwait") THEN Q.W ELSE Wait(D, Q, t)
         \* from the origin only (no vehicle brought anybody here yet)
         fresh == Q.fw > 0 /\ Q.acc[n] >= 0 /\ tent[n] = Q.T + Q.acc[n]
         in == enter[t] # <<>>
         reach == (in \/ (IF B("strict") THEN tent[n] < Dep(D, c) - w ELSE tent[n] <= Dep(D, c) - w))
                  /\ (~fresh \/ B("nocap") \/ Dep(D, c) - tent[n] <= Q.fw)
         board == reach /\ ~in /\ (MayBoard(D, c) \/ B("anyboard"))
         in2 == in \/ board
         leave == reach /\ in2 /\ (MayAlight(D, c) \/ B("anyalight"))
         sp == IF leave THEN Spread(tent, egress, c, D.foot[To(D, c)]) ELSE <<tent, egress>>
     IN  IF Dep(D, c) < Q.T + Least(Q.acc) THEN k' = k + 1 /\ UNCHANGED <<pass, tent, enter, usable, egress, tentEgress, count>>
         ELSE IF ForwardEnds(c) THEN k' = Len(net.f) + 1 /\ UNCHANGED <<pass, tent, enter, usable, egress, tentEgress, count>>
         ELSE /\ k' = k + 1
              /\ enter' = IF board THEN [enter EXCEPT ![t] = c] ELSE enter
              /\ usable' = IF board /\ ~(B("lostuse") /\ c[2] > 1) THEN usable \cup {t} ELSE usable
              /\ tentEgress' = IF leave /\ tentEgress = Infinity /\ Q.egr[To(D, c)] >= 0 THEN Arr(D, c) ELSE tentEgress
              /\ tent' = sp[1] /\ egress' = sp[2]
              /\ count' = IF reach /\ (in2 \/ B("countall")) THEN count + 1 ELSE count
              /\ UNCHANGED pass
  /\ UNCHANGED <<id, ep, bug, net, back, exit, exitFoot, steps, access, tentAccess, res>>

ForwardDone ==
  /\ pass = "fwd" /\ k > Len(net.f)
  /\ LET best == {<<n, egress[n][1] + Q.egr[n]>> : n \in {m \in Offers(Q.egr) : egress[m] # <<>> /\ egress[m][1] + Q.egr[m] - Q.T <= Q.mt}}
         first == IF B("nearest") /\ best # {} THEN (CHOOSE b \in best : \A o \in best : Q.egr[b[1]] <= Q.egr[o[1]])[2] ELSE MinOf({b[2] : b \in best})
     IN  IF count = 0 THEN res' = Fail(IF ep = "route" THEN "NO_SERVICE_FROM_ORIGIN" ELSE "NO_SERVICE_AT_PLACE") /\ pass' = "done" /\ UNCHANGED <<net, back, k, count>>
         ELSE IF ep = "access" THEN
           /\ res' = [ok |-> TRUE, nodes |-> [n \in 1..NN |-> IF egress[n] # <<>> /\ egress[n][1] - Q.T <= Q.mt THEN egress[n] ELSE <<>>]]
           /\ pass' = "done" /\ UNCHANGED <<net, back, k, count>>
         ELSE IF best = {} THEN res' = Fail("NO_ROUTING_FOUND") /\ pass' = "done" /\ UNCHANGED <<net, back, k, count>>
         ELSE /\ net' = [net EXCEPT !.T = first]
              /\ back' = (IF B("onebest") THEN [n \in 1..NN |-> IF Q.egr[n] >= 0 /\ <<n, first>> \in best THEN first - Q.egr[n] ELSE -1] ELSE StartBack(first))
              /\ pass' = "bwd" /\ k' = 1 /\ count' = 0 /\ UNCHANGED res
  /\ UNCHANGED <<id, ep, bug, tent, enter, usable, egress, tentEgress, exit, exitFoot, steps, access, tentAccess>>

-----------------------------------------------------------------------------
\* backward: label of a stop: <<boarded segment, last segment, walk seconds>>
WaitOf(c) == IF B("rnowait") THEN 0 ELSE Wait(D, Q, c[1])
RECURSIVE SpreadBack(_,_,_,_,_,_)
SpreadBack(ba, st, ac, c, ex, fs) ==
  IF fs = <<>> THEN <<ba, st, ac>>
  ELSE LET f == Head(fs)                          \* <<stop, seconds>>: a walk from that stop to the start of c
           n == f[1]
           here == From(D, c)
           v == Dep(D, c) - WaitOf(c)
           skip == n # here /\ ba[n] > v
           far == f[2] > Q.mx /\ ~B("rfarwalk")
           better == ~skip /\ ~far /\ (IF B("requal") THEN v - f[2] >= ba[n] ELSE v - f[2] > ba[n])
           ba2 == IF better THEN [ba EXCEPT ![n] = v - f[2]] ELSE ba
           st2 == IF better /\ ~(B("stalelabel") /\ st[n] # <<>>) THEN [st EXCEPT ![n] = <<c, ex, f[2]>>] ELSE st
           dep == net.Q.T
           fits == ~Q.fwd \/ ep # "route" \/
                   (Q.acc[n] >= 0 /\ v - Q.acc[n] >= dep /\ (Q.fw <= 0 \/ B("rnocap") \/ Dep(D, c) - dep - Q.acc[n] <= Q.fw))
           old == ac[n]
           bigger == old = <<>> \/ (IF B("keepaccess") THEN FALSE ELSE IF B("rawaccess") THEN Dep(D, old[1]) < Dep(D, c)
                                    ELSE Dep(D, old[1]) - Wait(D, Q, old[1][1]) < v)
           ac2 == IF n = here /\ ~skip /\ ~far /\ bigger /\ fits THEN [ac EXCEPT ![n] = <<c, ex>>] ELSE ac
       IN  SpreadBack(ba2, st2, ac2, c, ex, Tail(fs))

\* the walks into stop n, in some order
Into(n) == SetToSeq(UNION {{<<a, f[2]>> : f \in {g \in Range(D.foot[a]) : g[1] = n}} : a \in 1..NN})

BackwardEnds(c) ==
  \/ /\ ep = "route" /\ tentAccess >= 0
     /\ Arr(D, c) < tentAccess - (IF B("noaccess") THEN 0 ELSE Most(Q.acc))
  \/ net.T - Arr(D, c) > Q.mt

Backward ==
  /\ pass = "bwd" /\ k <= Len(net.b)
  /\ LET c == net.b[k]
         t == c[1]
         n == To(D, c)
         out == exit[t] # <<>>
         reach == out \/ (IF B("rstrict") THEN back[n] > Arr(D, c) ELSE back[n] >= Arr(D, c))
         foot == IF steps[n] = <<>> THEN (IF Q.egr[n] >= 0 THEN Q.egr[n] ELSE -1) ELSE steps[n][3]
         new == reach /\ (MayAlight(D, c) \/ B("ranyalight")) /\
                (~out \/ (steps[n] # <<>> /\ foot >= 0 /\ foot < exitFoot[t][1] /\ (B("rtightexit") \/ Arr(D, c) + WaitOf(steps[n][1]) <= back[n])))
         out2 == out \/ new
         ex2 == IF new THEN c ELSE exit[t]
         go == reach /\ out2 /\ (MayBoard(D, c) \/ B("ranyboard"))
         sp == IF go THEN SpreadBack(back, steps, access, c, ex2, Into(From(D, c))) ELSE <<back, steps, access>>
     IN  IF Arr(D, c) > net.T - Least(Q.egr) \/ t \notin usable
         THEN k' = k + 1 /\ UNCHANGED <<exit, exitFoot, back, steps, access, tentAccess, count>>
         ELSE IF BackwardEnds(c) THEN k' = Len(net.b) + 1 /\ UNCHANGED <<exit, exitFoot, back, steps, access, tentAccess, count>>
         ELSE /\ k' = k + 1
              /\ exit' = (IF new THEN [exit EXCEPT ![t] = c] ELSE exit)
              /\ exitFoot' = (IF new THEN [exitFoot EXCEPT ![t] = <<foot>>] ELSE exitFoot)
              /\ tentAccess' = (IF go /\ tentAccess < 0 /\ Q.acc[From(D, c)] >= 0 THEN Dep(D, c) ELSE tentAccess)
              /\ back' = sp[1] /\ steps' = sp[2] /\ access' = sp[3]
              /\ count' = IF reach /\ out2 THEN count + 1 ELSE count
  /\ UNCHANGED <<id, ep, bug, net, pass, tent, enter, usable, egress, tentEgress, res>>

\* the journey the labels make, from the chosen stop on (at most 12 rides): <<boarded, left, walk seconds to the next>>
RECURSIVE Chain(_,_)
Chain(step, left) ==
  IF step = <<>> \/ left = 0 THEN <<>>
  ELSE LET next == steps[To(D, step[2])]
       IN  <<<<step[1], step[2], IF next = <<>> THEN 0 ELSE next[3]>>>> \o Chain(next, left - 1)

BackwardDone ==
  /\ pass = "bwd" /\ k > Len(net.b) /\ pass' = (IF ep = "route" THEN "clean" ELSE "done")
  /\ LET val(n) == Dep(D, access[n][1]) - Wait(D, Q, access[n][1][1]) - Q.acc[n]
         cand == {n \in Offers(Q.acc) : access[n] # <<>> /\ val(n) >= 0 /\ net.T - val(n) <= Q.mt}
     IN  IF count = 0 THEN res' = Fail(IF ep = "route" THEN "NO_SERVICE_TO_DESTINATION" ELSE "NO_SERVICE_AT_PLACE")
         ELSE IF ep = "access" THEN
           res' = [ok |-> TRUE, nodes |-> [n \in 1..NN |->
                     IF access[n] # <<>> /\ net.T - (Dep(D, access[n][1]) - Wait(D, Q, access[n][1][1])) <= Q.mt THEN <<Dep(D, access[n][1]) - Wait(D, Q, access[n][1][1])>> ELSE <<>>]]
         ELSE IF cand = {} THEN res' = Fail("NO_ROUTING_FOUND")
         ELSE LET n == IF B("nearaccess") THEN CHOOSE m \in cand : \A o \in cand : Q.acc[m] <= Q.acc[o] ELSE CHOOSE m \in cand : \A o \in cand : val(o) <= val(m)
              IN  res' = [ok |-> TRUE, dep |-> val(n), stop |-> n, legs |-> Chain(<<access[n][1], access[n][2], 0>>, 12), spared |-> {}, last |-> 0]
  /\ UNCHANGED <<id, ep, bug, net, k, tent, enter, usable, egress, tentEgress, back, exit, exitFoot, steps, access, tentAccess, count>>

-----------------------------------------------------------------------------
(* Clean-up of the journey found: leave out rides and detours that the     *)
(* vehicles ridden make superfluous.  One case at a time:                  *)
(*  1 CSL ride i already passes the end of ride j: leave there, drop i+1..j*)
(*  2 BTS ride j passes the end of ride i: board it there, drop in between *)
(*  3 GTF ride i passes the start of ride j: leave there                   *)
(*  4 CSS rides i and j pass the same stop: change there                   *)
Seqs(g) == (g[1][2])..(g[2][2])
First1(g) == From(D, g[1])
Last1(g) == To(D, g[2])
Between(g) == {From(D, <<g[1][1], x>>) : x \in (g[1][2] + 1)..(g[2][2])} \ {First1(g), Last1(g)}
CasesAt(L, i, j, spared) ==
  (IF Last1(L[j]) \in Between(L[i]) \ spared THEN {<<1, Last1(L[j])>>} ELSE {})
  \cup (IF Last1(L[i]) \in Between(L[j]) \ spared THEN {<<2, Last1(L[i])>>} ELSE {})
  \cup (IF First1(L[j]) \in Between(L[i]) \ spared THEN {<<3, First1(L[j])>>} ELSE {})
  \cup {<<4, n>> : n \in (Between(L[i]) \cap Between(L[j])) \ spared}
\* the case taken: smallest j, then smallest i, then smallest case; of case 4 the stop that ride i passes first
Found(L, spared) ==
  LET all == UNION {{<<j, i>> : i \in {x \in 1..(j - 1) : CasesAt(L, x, j, spared) # {}}} : j \in 1..Len(L)}
  IN  IF all = {} THEN <<>>
      ELSE LET p == CHOOSE a \in all : \A b \in all : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
               cs == CasesAt(L, p[2], p[1], spared)
               c == MinOf({x[1] : x \in cs})
               g == L[p[2]]
               at(n) == MinOf({x \in (g[1][2] + 1)..(g[2][2]) : From(D, <<g[1][1], x>>) = n})
               n == CHOOSE n \in {x[2] : x \in {y \in cs : y[1] = c}} : \A m \in {x[2] : x \in {y \in cs : y[1] = c}} : c # 4 \/ at(n) <= at(m)
           IN  <<c, p[2], p[1], n>>
Cut(L, i, j) == SubSeq(L, 1, i) \o SubSeq(L, j, Len(L))
Join(L, i, j, keep) == [Cut(L, i, j) EXCEPT ![i][3] = IF keep THEN @ ELSE 0]
\* segments of a ride that end (start) at stop n, last first
Ends(g, n)   == {x \in Seqs(g) : To(D, <<g[1][1], x>>) = n}
Starts(g, n) == {x \in Seqs(g) : From(D, <<g[1][1], x>>) = n}

Clean ==
  /\ pass = "clean"
  /\ IF ~res.ok THEN pass' = "done" /\ UNCHANGED res
     ELSE LET f == Found(res.legs, res.spared) IN
     IF f = <<>> THEN pass' = "done" /\ UNCHANGED res
     ELSE
       LET c == f[1]  i == f[2]  j == f[3]  n == f[4]  L == res.legs
           gi == L[i]  gj == L[j]  ti == gi[1][1]  tj == gj[1][1]
           spare == [res EXCEPT !.spared = @ \cup {n}, !.last = c]
           out(bad) == LET x == <<ti, IF B("c_early") THEN MinOf(Ends(gi, n)) ELSE MaxOf(Ends(gi, n))>> IN IF MayAlight(D, x) \/ B(bad) THEN x ELSE <<>>
           in(bad) == LET x == <<tj, IF B("c_late") THEN MinOf(Starts(gj, n)) ELSE MaxOf(Starts(gj, n))>> IN IF MayBoard(D, x) \/ B(bad) THEN x ELSE <<>>
           \* case 4 goes on to the first passage of each ride while it may be left (boarded)
           stopsI == {x \in Ends(gi, n) : \A y \in Ends(gi, n) : y >= x => MayAlight(D, <<ti, y>>) \/ B("c4noalight")}
           startsJ == {x \in Starts(gj, n) : \A y \in Starts(gj, n) : y >= x => MayBoard(D, <<tj, y>>) \/ B("c4noboard")}
       IN  CASE c = 1 -> LET x == out("c1noflag") IN
                           IF x = <<>> THEN res' = spare /\ pass' = "clean"
                           ELSE /\ res' = [res EXCEPT !.legs = SubSeq(L, 1, i - 1) \o <<<<gi[1], x, IF B("c1nowalk") THEN gi[3] ELSE gj[3]>>>>
                                                              \o SubSeq(L, (IF B("c1keep") THEN j ELSE j + 1), Len(L)), !.last = 1]
                                /\ pass' = "clean"
             [] c = 2 -> LET x == in("c2noflag") IN
                           /\ pass' = "done"
                           /\ IF x = <<>> THEN res' = spare
                              ELSE res' = [res EXCEPT !.legs = Join([L EXCEPT ![j][1] = x], i, j, B("c2nowalk")), !.last = 2]
             [] c = 3 -> LET x == out("c3noflag") IN
                           /\ pass' = "clean"
                           /\ IF x = <<>> THEN res' = spare
                              ELSE res' = [res EXCEPT !.legs = Join([L EXCEPT ![i][2] = x], i, IF B("c3cut") THEN j + 1 ELSE j, B("c3nowalk")), !.last = 3]
             [] c = 4 -> /\ pass' = "clean"
                         /\ IF stopsI = {} \/ startsJ = {} THEN res' = spare
                            ELSE res' = [res EXCEPT !.legs = Join([L EXCEPT ![i][2] = IF B("c4exit") THEN @ ELSE <<ti, MinOf(stopsI)>>,
                                                                          ![j][1] = IF B("c4enter") THEN @ ELSE <<tj, MinOf(startsJ)>>], i, j, B("c4nowalk")),
                                                    \* a passage where boarding is forbidden ends the search, and the stop
                                                    !.spared = IF startsJ = Starts(gj, n) THEN @ ELSE @ \cup {n}, !.last = 4]
  /\ UNCHANGED <<id, ep, bug, net, k, tent, enter, usable, egress, tentEgress, back, exit, exitFoot, steps, access, tentAccess, count>>

Next == Build \/ Start \/ Forward \/ ForwardDone \/ Backward \/ BackwardDone \/ Clean
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the answer must be *)
X == Derive(D)
Uniform == \A t \in X.adm[1] : ~Transferable(D, t)
Plain == Q.fw = 0

\* the legs are a journey: rides along trips, transfers that can be made
LegOK(g) == g[1][1] = g[2][1] /\ g[1][2] <= g[2][2] /\ MayBoard(D, g[1]) /\ MayAlight(D, g[2]) /\ g[1][1] \in X.adm[1]
Follows(g, h) == \E f \in Range(D.foot[To(D, g[2])]) : f[1] = From(D, h[1]) /\ f[2] = g[3] /\ f[2] <= Q.mx /\ Arr(D, g[2]) + f[2] + Wait(D, Q, h[1][1]) <= Dep(D, h[1])
Journey(L) ==
  /\ Len(L) >= 1 /\ Len(L) < 12
  /\ \A i \in 1..Len(L) : LegOK(L[i])
  /\ \A i \in 1..(Len(L) - 1) : Follows(L[i], L[i + 1])
  /\ LET g == L[1][1] IN Q.acc[From(D, g)] >= 0 /\ (Q.fwd => Dep(D, g) >= Q.T + Q.acc[From(D, g)] + Wait(D, Q, g[1])
                                                          /\ (Q.fw > 0 => Dep(D, g) - Q.T - Q.acc[From(D, g)] <= Q.fw))
  /\ LET e == L[Len(L)][2] IN Q.egr[To(D, e)] >= 0 /\ Arr(D, e) + Q.egr[To(D, e)] <= net.T

RouteRight ==
  LET ride == Rideable(D, X, Q)
      arrs == Arrivals(D, Q, ride)
      A == IF Q.fwd THEN net.T ELSE Q.T
      deps == {v \in Departures(D, Q, Usable(D, X, Q, A)) : v >= (IF Q.fwd THEN Q.T ELSE 0) /\ A - v <= Q.mt}
      why == IF NoAccess # "" THEN NoAccess
             ELSE IF Q.fwd THEN (IF CatchableDepartures(D, X, Q) = {} THEN "NO_SERVICE_FROM_ORIGIN" ELSE "NO_ROUTING_FOUND")
             ELSE (IF UsableArrivals(D, X, Q) = {} THEN "NO_SERVICE_TO_DESTINATION" ELSE "NO_ROUTING_FOUND")
  IN  IF ~res.ok THEN res.reason = why /\ (Q.fwd /\ Plain => arrs = {}) /\ (~Q.fwd /\ Uniform => deps = {})
      ELSE /\ NoAccess = ""
           /\ Journey(res.legs)
           /\ Q.fwd /\ Plain => arrs # {} /\ net.T = MinOf(arrs)
           /\ (Q.fwd => Plain) /\ Uniform => deps # {} /\ res.dep = MaxOf(deps)
AccessRight ==
  LET why == IF NoAccess # "" THEN NoAccess ELSE IF (IF Q.fwd THEN CatchableDepartures(D, X, Q) ELSE UsableArrivals(D, X, Q)) = {} THEN "NO_SERVICE_AT_PLACE" ELSE ""
      ride == Rideable(D, X, Q)
      use == Usable(D, X, Q, Q.T)
      best(n) == IF Q.fwd THEN EarliestAlight(D, Q, ride, n) ELSE LatestReach(D, Q, use, n)
  IN  IF ~res.ok THEN res.reason = why
      ELSE why = "" /\ (Q.fwd /\ Plain => \A n \in 1..NN : res.nodes[n] = (IF best(n) = {} THEN <<>> ELSE <<MinOf(best(n))>>))
                    /\ (~Q.fwd /\ Uniform => \A n \in 1..NN : res.nodes[n] = (IF best(n) = {} THEN <<>> ELSE <<MaxOf(best(n))>>))
Right1 == pass = "done" => IF ep = "route" THEN RouteRight ELSE AccessRight
\* the journey is one before, during and after the clean-up
Right2 == pass = "clean" /\ ep = "route" /\ res.ok => Journey(res.legs)
Right == Right1 /\ Right2
Correct == bug = "none" => Right
\* networks that tell a wrong scan from a right one
Told == bug # "none" /\ pass = "done" /\ ~Right1 => PrintT(<<"N", bug, id, ep>>)
\* the network and the question, for the harness
Shown == pass = "start" => PrintT("NET " \o ToJson([id |-> id, D |-> D, q |-> Ask(id)]))
=============================================================================
