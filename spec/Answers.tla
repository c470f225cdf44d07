------------------------------ MODULE Answers ------------------------------
(***************************************************************************)
(* Validation of recorded answers of the real server.                      *)
(*                                                                         *)
(* Every recorded /v2/route route is consumed step by step as a behaviour  *)
(* of the traveller: one TLC state per itinerary step.  A step that no     *)
(* transition of the traveller explains is recorded as a broken clause and *)
(* the traveller is moved to where the answer claims to be, so the rest of *)
(* the itinerary is still examined.  When an answer is consumed, its       *)
(* optimality, reason and totals are compared with the closures of module  *)
(* Traveller.  Broken clauses are printed as <<"V", case, clauses>>.       *)
(***************************************************************************)
EXTENDS Traveller, TLC, TLCExt, Json, IOUtils

File  == ndJsonDeserialize(IOEnv.TRACE)
DS    == File[1]
Cases == File[2]

DX == [k \in 1..Len(DS) |-> Derive(DS[k])]

\* clauses are attributed to properties by prefix
VARIABLES c,      \* case number
          r,      \* route number inside the answer (0: before the first)
          l,      \* next step of that route
          tv,     \* the traveller
          bad     \* broken clauses so far

vars == <<c, r, l, tv, bad>>

If(cond, clause) == IF cond THEN {} ELSE {clause}

-----------------------------------------------------------------------------
(* The traveller while an itinerary is replayed.                           *)
(* ph: "home" | "walked" | "riding" | "alighted" | "there"                 *)
Home == [ph |-> "home", n |-> 0, t |-> 0, w |-> 0, kind |-> "", trip |-> 0, pos |-> {},
         bt |-> 0, nb |-> 0, walkT |-> 0, walkD |-> 0, accT |-> 0, accD |-> 0, egrT |-> 0, egrD |-> 0,
         vehT |-> 0, vehD |-> 0, wait1 |-> 0, waitX |-> 0, special |-> FALSE, seq |-> <<>>, rideD |-> 0]

CaseD(k) == DS[Cases[k].ds]
CaseX(k) == DX[Cases[k].ds]
CaseQ(k) == Query(DS[Cases[k].ds], Cases[k])

\* the next step of the route, or a neutral record
NextStep(route, i) == IF i + 1 <= Len(route.steps) THEN route.steps[i + 1] ELSE [a |-> "none"]

Walk(D, Q, route, i, st, t0) ==
  LET nx == NextStep(route, i)
      kindOK == \/ st.k = "access"   /\ t0.ph = "home"
                \/ st.k = "transfer" /\ t0.ph = "alighted" /\ nx.a = "board"
                \/ st.k = "egress"   /\ t0.ph = "alighted" /\ nx.a = "none"
      start == IF t0.ph = "home" THEN route.dep ELSE t0.t
      nextWait == IF nx.a = "board" /\ nx.trip > 0 THEN Wait(D, Q, nx.trip) ELSE 0
      offered == CASE st.k = "access"   -> nx.a = "board" /\ nx.n > 0 /\ Q.acc[nx.n] = st.tt
                   [] st.k = "egress"   -> t0.n > 0 /\ Q.egr[t0.n] = st.tt
                   [] st.k = "transfer" -> nx.a = "board" /\ nx.n > 0 /\ t0.n > 0 /\
                                           IF nx.n = t0.n THEN st.tt = 0
                                           ELSE st.tt \in FootTimes(D, t0.n, nx.n)
                   [] OTHER -> FALSE
      encoded == CASE st.k = "access"   -> nx.a = "board" /\ nx.n > 0 /\ D.walk[Cases[c].o][nx.n][2] = st.dist
                   [] st.k = "egress"   -> t0.n > 0 /\ D.walk[Cases[c].d][t0.n][2] = st.dist
                   [] st.k = "transfer" -> nx.a = "board" /\ nx.n > 0 /\ t0.n > 0 /\
                                           IF nx.n = t0.n THEN st.dist = 0
                                           ELSE \E f \in Range(D.foot[t0.n]) : f[1] = nx.n /\ f[2] = st.tt /\ f[3] = st.dist
                   [] OTHER -> FALSE
      \* both the walk that is told and the one of the data
      limitOK == CASE st.k = "access" -> st.tt <= Q.ma /\ (nx.a = "board" /\ nx.n > 0 => D.walk[Cases[c].o][nx.n][1] <= Q.ma)
                   [] st.k = "egress" -> st.tt <= Q.me /\ (t0.n > 0 => D.walk[Cases[c].d][t0.n][1] <= Q.me)
                   [] OTHER -> st.tt <= Q.mx /\ (nx.a = "board" /\ nx.n > 0 /\ t0.n > 0 /\ nx.n # t0.n =>
                                                    \A f \in {MinOf(F) : F \in {FootTimes(D, t0.n, nx.n)} \ {{}}} : f <= Q.mx)
      t1 == [t0 EXCEPT !.ph = IF st.k = "egress" THEN "there" ELSE "walked",
                       !.t = st.arr, !.w = st.tt, !.kind = st.k,
                       !.walkT = @ + IF st.k = "transfer" THEN st.tt ELSE 0,
                       !.walkD = @ + IF st.k = "transfer" THEN st.dist ELSE 0,
                       !.accT = IF st.k = "access" THEN st.tt ELSE @, !.accD = IF st.k = "access" THEN st.dist ELSE @,
                       !.egrT = IF st.k = "egress" THEN st.tt ELSE @, !.egrD = IF st.k = "egress" THEN st.dist ELSE @]
  IN  <<t1, If(kindOK, "C01.order") \cup If(offered, "C01.walk") \cup If(limitOK, "C02.walk")
            \cup If(encoded, "C16.walkdistance")
            \cup If(st.dep = start, "C06.walkstart") \cup If(st.arr = st.dep + st.tt, "C06.walkarr")
            \cup If(st.k = "egress" \/ st.ready = st.arr + nextWait, "C06.ready")>>

Board(D, Q, adm, st, t0) ==
  LET known == st.trip > 0 /\ st.n > 0
      tr == D.trips[st.trip]
      pos == IF known THEN {i \in 1..(Len(tr.nodes) - 1) : tr.nodes[i] = st.n /\ tr.dep[i] = st.t} ELSE {}
      okpos == {i \in pos : tr.cb[i] = 1}
      standing == t0.t
      wait == IF known THEN Wait(D, Q, st.trip) ELSE 0
      t1 == [t0 EXCEPT !.ph = "riding", !.n = st.n, !.t = st.t, !.trip = st.trip, !.pos = okpos, !.bt = st.t, !.nb = @ + 1,
                       !.wait1 = IF t0.nb = 0 THEN st.w ELSE @, !.waitX = @ + IF t0.nb = 0 THEN 0 ELSE st.w,
                       !.special = @ \/ (known /\ Transferable(D, st.trip)),
                       !.seq = Append(@, IF known THEN tr.line ELSE 0)]
  IN  <<t1, If(t0.ph = "walked", "C01.order") \cup If(known, "C01.unknown")
            \cup If(~known \/ pos # {}, "C01.boardtime") \cup If(~known \/ pos = {} \/ okpos # {}, "C01.mayboard")
            \cup If(st.t >= standing + wait, "C01.minwait")
            \cup If(~known \/ st.trip \in adm, "C02.scenario")
            \cup If(~(Q.fwd /\ Q.fw > 0 /\ t0.nb = 0) \/ st.t - (Q.T + t0.w) <= Q.fw, "C02.firstwait")
            \cup If(st.w = st.t - standing, "C06.waiting")
            \cup If(~known \/ st.seq \in pos, "C16.sequence")
            \cup If(~known \/ st.sseq = st.seq, "C16.sequence")
            \cup If(~known \/ st.line = tr.line, "C16.line") \cup If(st.names, "C16.names")>>

Alight(D, Q, st, t0) ==
  LET known == st.trip > 0 /\ st.n > 0
      tr == D.trips[st.trip]
      pos == IF known THEN {j \in 2..Len(tr.nodes) : tr.nodes[j] = st.n /\ tr.arr[j] = st.t} ELSE {}
      after == {j \in pos : \E i \in t0.pos : i < j}
      ok == {j \in after : tr.cu[j] = 1}
      RECURSIVE SumDist(_,_)
      SumDist(i, j) == IF i >= j THEN 0 ELSE tr.dist[i] + SumDist(i + 1, j)
      dists == {SumDist(i, j) : i \in t0.pos, j \in {jj \in ok : TRUE}}
      t1 == [t0 EXCEPT !.ph = "alighted", !.n = st.n, !.t = st.t, !.vehT = @ + st.ivt, !.vehD = @ + st.ivd,
                       !.rideD = @]
  IN  <<t1, If(t0.ph = "riding" /\ t0.trip = st.trip, "C01.order") \cup If(known, "C01.unknown")
            \cup If(~known \/ pos # {}, "C01.alighttime")
            \cup If(~known \/ pos = {} \/ t0.pos = {} \/ after # {}, "C01.rideorder")
            \cup If(~known \/ after = {} \/ ok # {}, "C01.mayalight")
            \cup If(st.ivt = st.t - t0.bt, "C06.invehicle")
            \cup If(~known \/ ok = {} \/ st.ivd \in dists, "C16.ridedistance")
            \cup If(~known \/ (st.seq + 1) \in pos, "C16.sequence")
            \cup If(~known \/ st.sseq = st.seq + 1, "C16.sequence")
            \cup If(~known \/ st.line = tr.line, "C16.line") \cup If(st.names, "C16.names")>>

-----------------------------------------------------------------------------
(* A fully consumed route *)

RouteEnd(D, Q, route, t) ==
  LET waiting == t.wait1 + t.waitX
      steps == t.accT + t.egrT + t.walkT + t.vehT + waiting
      plain == ~t.special
  IN  If(t.ph = "there", "C01.incomplete")
      \cup If(route.arr = t.t, "C06.arrival")
      \cup If(route.ttt = route.arr - route.dep, "C06.total")
      \cup If(route.ttt = steps, "C06.totalsum")
      \cup If(route.wait = route.wait1 + route.waitX, "C06.waitsum")
      \cup If(route.wait1 = t.wait1 /\ route.waitX = t.waitX, "C06.waitparts")
      \cup If(route.vehT = t.vehT, "C06.invehicletotal")
      \cup If(route.accT = t.accT /\ route.egrT = t.egrT, "C06.accessegress")
      \cup If(route.accD = t.accD /\ route.egrD = t.egrD, "C06.accessegressdist")
      \cup If(~plain \/ (route.walkT = t.walkT /\ route.nonT = t.walkT + t.accT + t.egrT), "C06.walktotal")
      \cup If(~plain \/ route.vehD = t.vehD, "C06.vehdist")
      \cup If(~plain \/ (route.walkD = t.walkD /\ route.nonD = t.walkD + t.accD + t.egrD), "C06.walkdist")
      \cup If(~plain \/ route.totD = t.vehD + t.walkD + t.accD + t.egrD, "C06.totaldist")
      \cup If(~plain \/ (route.nb = t.nb /\ route.nt = t.nb - 1), "C06.counts")
      \cup If(Q.fwd => route.dep >= Q.T, "C02.departure")
      \cup If(~Q.fwd => route.arr <= Q.T, "C02.arrival")
      \cup If(IF Q.fwd THEN route.arr - Q.T <= Q.mt ELSE Q.T - route.dep <= Q.mt, "C02.span")

-----------------------------------------------------------------------------
(* A fully consumed answer *)

\* positive hop times and uniform minimum waiting, the domain of C04/C05/C09 (C03/C08 need the first only)
Positive(D, adm) == \A t \in adm : \A i \in 1..(Len(D.trips[t].nodes) - 1) : D.trips[t].arr[i + 1] > D.trips[t].dep[i]
Uniform(D, adm)  == \A t \in adm : ~Transferable(D, t)

Reason(Q, X) ==
  LET noO == \A n \in DOMAIN Q.acc : Q.acc[n] < 0
      noD == \A n \in DOMAIN Q.egr : Q.egr[n] < 0
  IN  CASE noO /\ noD -> "NO_ACCESS_AT_ORIGIN_AND_DESTINATION"
        [] noO -> "NO_ACCESS_AT_ORIGIN"
        [] noD -> "NO_ACCESS_AT_DESTINATION"
        [] OTHER -> "accessible"

RouteReason(D, X, Q) ==
  LET a == Reason(Q, X) IN
  IF a # "accessible" THEN a
  ELSE IF Q.fwd THEN (IF CatchableDepartures(D, X, Q) = {} THEN "NO_SERVICE_FROM_ORIGIN" ELSE "NO_ROUTING_FOUND")
  ELSE (IF UsableArrivals(D, X, Q) = {} THEN "NO_SERVICE_TO_DESTINATION" ELSE "NO_ROUTING_FOUND")

AccessReason(D, X, Q) ==
  IF Q.fwd
  THEN IF \A n \in DOMAIN Q.acc : Q.acc[n] < 0 THEN "NO_ACCESS_AT_PLACE"
       ELSE IF CatchableDepartures(D, X, Q) = {} THEN "NO_SERVICE_AT_PLACE" ELSE "served"
  ELSE IF \A n \in DOMAIN Q.egr : Q.egr[n] < 0 THEN "NO_ACCESS_AT_PLACE"
       ELSE IF UsableArrivals(D, X, Q) = {} THEN "NO_SERVICE_AT_PLACE" ELSE "served"

LinesOf(D, route) == [ln \in 1..Len(D.lines) |->
   Cardinality({i \in 1..Len(route.steps) : route.steps[i].a = "board" /\ route.steps[i].line = ln})]

RouteAnswer(k) ==
  LET rec == Cases[k]
      D == CaseD(k)  X == CaseX(k)  Q == CaseQ(k)
      adm == X.adm[Q.s]
      ok == rec.status = "success"
      R == rec.routes
      first == R[1]
      pos == Positive(D, adm)
      uni == Uniform(D, adm)
      ride == Rideable(D, X, Q)
      arrs == Arrivals(D, Q, ride)
      inC03 == Q.fwd /\ Q.fw = 0 /\ pos
      inC04 == ~Q.fwd /\ pos /\ uni
      deps == {v \in Departures(D, Q, Usable(D, X, Q, Q.T)) : v >= 0 /\ Q.T - v <= Q.mt}
      inC05 == Q.fwd /\ Q.fw = 0 /\ pos /\ uni
      late == {v \in Departures(D, Q, Usable(D, X, Q, first.arr)) : v >= Q.T}
      acc == Reason(Q, X) = "accessible"
  IN  \* C03 / C04: existence and optimum
      (IF inC03 THEN (IF ok THEN If(arrs # {}, "C03.exists") \cup If(arrs = {} \/ first.arr = MinOf(arrs), "C03.optimum")
                      ELSE If(arrs = {}, "C03.missed")) ELSE {})
      \cup (IF inC04 THEN (IF ok THEN If(deps # {}, "C04.exists") \cup If(deps = {} \/ first.dep = MaxOf(deps), "C04.optimum")
                      ELSE If(deps = {}, "C04.missed")) ELSE {})
      \cup (IF inC05 /\ ok THEN If(late # {}, "C05.exists") \cup If(late = {} \/ first.dep = MaxOf(late), "C05.latest") ELSE {})
      \* C07
      \cup (IF rec.status = "no_routing_found" THEN If(rec.reason = RouteReason(D, X, Q), "C07.reason") ELSE {})
      \cup (IF ok THEN If(acc, "C07.success") ELSE {})
      \cup If(rec.status \in {"success", "no_routing_found"}, "C01.status")
      \cup If(ok => Len(R) >= 1, "C01.noroute")
      \* C10
      \cup (IF rec.alt
            THEN LET p == rec.plain IN
                 If(rec.status = p.status, "C10.status")
                 \cup If(rec.status = p.status /\ ~ok => rec.reason = p.reason, "C10.reason")
                 \cup (IF ok THEN
                      If(rec.same, "C10.first")
                      \cup If(Len(R) <= 50, "C10.max50") \cup If(rec.total >= Len(R), "C10.total")
                      \cup If(\A i, j \in 1..Len(R) : i < j => LinesOf(D, R[i]) # LinesOf(D, R[j]), "C10.distinct")
                      \cup If(inC03 /\ uni => \A i \in 2..Len(R) : R[i].arr >= first.arr, "C10.better")
                      \cup If(inC04 => \A i \in 2..Len(R) : R[i].dep <= first.dep, "C10.better")
                      ELSE {})
            ELSE If(ok => Len(R) = 1, "C10.single"))

AccessAnswer(k) ==
  LET rec == Cases[k]
      D == CaseD(k)  X == CaseX(k)  Q == CaseQ(k)
      adm == X.adm[Q.s]
      ok == rec.status = "success"
      N == rec.nodes
      pos == Positive(D, adm)
      uni == Uniform(D, adm)
      ride == Rideable(D, X, Q)
      use == Usable(D, X, Q, Q.T)
      inC08 == Q.fwd /\ Q.fw = 0 /\ pos
      inC09 == ~Q.fwd /\ pos /\ uni
      Best(n) == IF Q.fwd THEN EarliestAlight(D, Q, ride, n) ELSE LatestReach(D, Q, use, n)
      Pick(S) == IF Q.fwd THEN MinOf(S) ELSE MaxOf(S)
      Listed(n) == {i \in 1..Len(N) : N[i].n = n}
      p == IF Q.fwd THEN "C08" ELSE "C09"
      why == AccessReason(D, X, Q)
  IN  (IF rec.status = "no_routing_found" THEN If(rec.reason = why, "C07.accessreason") ELSE {})
      \cup (IF ok THEN If(why = "served", "C07.accesssuccess") ELSE {})
      \cup If(rec.status \in {"success", "no_routing_found"}, "C08.status")
      \cup (IF inC08 \/ inC09 THEN
             If(ok => \A i \in 1..Len(N) : N[i].n > 0, p \o ".unknown")
             \cup If(ok => rec.total = D.nn, p \o ".total")
             \cup If(\A n \in 1..D.nn : Cardinality(Listed(n)) <= 1, p \o ".twice")
             \cup If(\A n \in 1..D.nn : Listed(n) # {} => Best(n) # {}, p \o ".extra")
             \cup If(\A n \in 1..D.nn : Best(n) # {} => Listed(n) # {}, p \o ".missing")
             \cup If(\A n \in 1..D.nn : \A i \in Listed(n) : Best(n) # {} => N[i].t = Pick(Best(n)), p \o ".time")
             \cup If(\A i \in 1..Len(N) : N[i].ttt = (IF Q.fwd THEN N[i].t - Q.T ELSE Q.T - N[i].t), p \o ".duration")
             \cup If(\A i \in 1..Len(N) : N[i].names, "C16.names")
            ELSE {})

SummaryAnswer(k) ==
  LET rec == Cases[k]
      D == CaseD(k)
      R == rec.route.routes
      ok == rec.route.status = "success"
      routed == rec.route.status \in {"success", "no_routing_found"}
      Boardings(ln) == Cardinality({<<i, j>> \in (1..Len(R)) \X (1..200) :
                          j <= Len(R[i].steps) /\ R[i].steps[j].a = "board" /\ R[i].steps[j].line = ln})
      S == rec.lines
  IN  IF ~routed THEN If(rec.status = rec.route.status, "C19.status")
      ELSE If(rec.status = "success", "C19.status")
           \cup If(rec.nb = (IF ok THEN Len(R) ELSE 0), "C19.nbroutes")
           \cup If(\A i, j \in 1..Len(S) : i # j => S[i].line # S[j].line, "C19.dup")
           \cup If(\A ln \in 1..Len(D.lines) :
                     (Boardings(ln) > 0) <=> (\E i \in 1..Len(S) : S[i].line = ln), "C19.lines")
           \cup If(\A i \in 1..Len(S) : S[i].line > 0 /\ S[i].count = Boardings(S[i].line), "C19.count")
           \cup If(\A i \in 1..Len(S) : S[i].names, "C19.names")

-----------------------------------------------------------------------------
(* The behaviour *)

Report(k, b) == IF b = {} THEN TRUE ELSE PrintT(<<"V", Cases[k].id, b>>)

Init == c \in 1..Len(Cases) /\ r = 0 /\ l = 0 /\ tv = Home /\ bad = {}

\* a broken clause of a further alternative also breaks C10
Also(b) == IF r > 1 THEN b \cup {"C10.further." \o x : x \in b} ELSE b

\* start (or skip to) the next route
NextRoute ==
  /\ r >= 0
  /\ Cases[c].ep = "route"
  /\ IF r = 0 THEN TRUE ELSE l > Len(Cases[c].routes[r].steps)
  /\ LET b == IF r = 0 THEN {} ELSE Also(RouteEnd(CaseD(c), CaseQ(c), Cases[c].routes[r], tv))
         n == bad \cup b
     IN  IF r < Len(Cases[c].routes)
         THEN r' = r + 1 /\ l' = 1 /\ tv' = Home /\ bad' = n /\ c' = c
         ELSE /\ LET f == n \cup RouteAnswer(c) IN bad' = f /\ Report(c, f)
              /\ r' = -1 /\ l' = 0 /\ tv' = Home /\ c' = c

TakeStep(a, res) == tv' = res[1] /\ bad' = bad \cup Also(res[2]) /\ l' = l + 1 /\ UNCHANGED <<c, r>>

Here == Cases[c].routes[r].steps[l]
InRoute == r > 0 /\ Cases[c].ep = "route" /\ l <= Len(Cases[c].routes[r].steps)

WalkStep == InRoute /\ Here.a = "walk" /\ TakeStep("walk", Walk(CaseD(c), CaseQ(c), Cases[c].routes[r], l, Here, tv))
BoardStep == InRoute /\ Here.a = "board" /\ TakeStep("board", Board(CaseD(c), CaseQ(c), CaseX(c).adm[Cases[c].s], Here, tv))
AlightStep == InRoute /\ Here.a = "alight" /\ TakeStep("alight", Alight(CaseD(c), CaseQ(c), Here, tv))

Accessibility ==
  /\ r = 0 /\ Cases[c].ep = "access"
  /\ LET b == AccessAnswer(c) IN bad' = b /\ Report(c, b)
  /\ r' = -1 /\ UNCHANGED <<c, l, tv>>

Summary ==
  /\ r = 0 /\ Cases[c].ep = "summary"
  /\ LET b == SummaryAnswer(c) IN bad' = b /\ Report(c, b)
  /\ r' = -1 /\ UNCHANGED <<c, l, tv>>

Next == NextRoute \/ WalkStep \/ BoardStep \/ AlightStep \/ Accessibility \/ Summary

Spec == Init /\ [][Next]_vars
=============================================================================
