------------------------------ MODULE HttpApi ------------------------------
(***************************************************************************)
(* The HTTP interface (C18): a request is a list of parameter occurrences  *)
(* in the order they arrive; the server reads its own parameters, then the *)
(* common ones, then answers.  /updateCache reads a list of names.         *)
(*                                                                         *)
(* An occurrence is [n: name, c: class, v: value].  Classes: "ok" (the     *)
(* documented form), "odd" (a form the documentation does not settle),     *)
(* "bad" (malformed), "blank", "huge" (beyond 32 bits); for scenario_id    *)
(* also "unknown" and "empty".  Numeric values are integers, points and    *)
(* scenarios are strings.                                                  *)
(*                                                                         *)
(* What is allowed is said declaratively (May, Definite, Keys); the        *)
(* machine below is checked against it, and so are the answers of the real *)
(* server (module HttpApiTrace).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Bugs,        \* wrong servers the model is to tell apart; {"none"}
          MaxDev,      \* requests differ from a good one in at most this many places (a repeated parameter counts for two)
          List         \* TRUE: only print the requests

----------------------------------------------------------------------------
\* what the interface promises
Limits == {"max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time"}
Ints == Limits \cup {"min_waiting_time"}
CommonNames == Ints \cup {"time_of_trip", "time_type", "scenario_id"}
Endpoints == {"route", "summary", "access"}
OwnNames(ep) == IF ep = "access" THEN {"place"} ELSE {"origin", "destination", "alternatives"}
NamesOf(ep) == OwnNames(ep) \cup CommonNames
Required(ep) == (OwnNames(ep) \ {"alternatives"}) \cup {"scenario_id", "time_of_trip"}
Points == {"origin", "destination", "place"}

Horizon == 2000000                                  \* a longer limit limits nothing: data ends long before
NoLimit == 0
Default(n) == CASE n = "min_waiting_time" -> 180
                [] n = "max_travel_time" -> NoLimit
                [] n \in {"max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time"} -> 1200
                [] n = "max_first_waiting_time" -> 1800
                [] OTHER -> 0                                          \* time_type: departure; alternatives: none
Norm(n, v) == CASE n \in Limits -> IF v <= 0 \/ v >= Horizon THEN NoLimit ELSE v
                [] n = "min_waiting_time" -> IF v < 0 THEN 0 ELSE v
                [] OTHER -> v

MissingCode == [origin |-> "MISSING_PARAM_ORIGIN", destination |-> "MISSING_PARAM_DESTINATION", place |-> "MISSING_PARAM_PLACE",
                scenario_id |-> "MISSING_PARAM_SCENARIO", time_of_trip |-> "MISSING_PARAM_TIME_OF_TRIP"]
InvalidCode(n) == CASE n = "origin" -> "INVALID_ORIGIN" [] n = "destination" -> "INVALID_DESTINATION" [] n = "place" -> "INVALID_PLACE"
                    [] n = "scenario_id" -> "MISSING_PARAM_SCENARIO" [] OTHER -> "INVALID_NUMERICAL_DATA"
DocumentedErrors == {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_PLACE",
                     "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_PLACE", "INVALID_NUMERICAL_DATA",
                     "PARAM_ERROR_UNKNOWN"}

\* the defects an occurrence may be charged with
Charges(ep, o) ==
  CASE o.n \notin NamesOf(ep) -> {}
    [] o.n \in {"time_type", "alternatives"} -> IF o.c = "ok" THEN {} ELSE {"INVALID_NUMERICAL_DATA"}
    [] o.n = "scenario_id" -> (CASE o.c = "ok" -> {} [] o.c = "empty" -> {"EMPTY_SCENARIO"} [] OTHER -> {"MISSING_PARAM_SCENARIO"})
    [] o.n = "time_of_trip" -> (CASE o.c \in {"ok", "odd"} /\ o.v < 0 -> {"MISSING_PARAM_TIME_OF_TRIP", "INVALID_NUMERICAL_DATA"}
                                  [] o.c = "ok" -> {}
                                  [] o.c = "blank" -> {"MISSING_PARAM_TIME_OF_TRIP", "INVALID_NUMERICAL_DATA"}
                                  [] OTHER -> {"INVALID_NUMERICAL_DATA"})
    [] o.n \in Points -> (CASE o.c = "ok" -> {} [] o.c = "blank" -> {InvalidCode(o.n), MissingCode[o.n]} [] OTHER -> {InvalidCode(o.n)})
    [] OTHER -> IF o.c = "ok" THEN {} ELSE {"INVALID_NUMERICAL_DATA"}
\* the values it may stand for when it is accepted
Values(ep, o) ==
  CASE o.n \in {"time_type", "alternatives"} -> IF o.c = "ok" THEN {o.v} ELSE {0, 1}
    [] o.n = "scenario_id" -> IF o.c \in {"ok", "odd"} THEN {o.v} ELSE {}
    [] o.n = "time_of_trip" -> IF o.c \in {"ok", "odd"} /\ o.v >= 0 THEN {o.v} ELSE {}
    [] o.n \in Points -> IF o.c \in {"ok", "odd"} THEN {o.v} ELSE {}
    [] OTHER -> IF o.c \in {"ok", "odd"} THEN {Norm(o.n, o.v)} ELSE IF o.c = "huge" THEN {NoLimit} ELSE {}

Occ(ps, n) == {ps[i] : i \in {j \in 1..Len(ps) : ps[j].n = n}}
\* 400 may be answered, with one of these codes
May(ep, ps) == UNION {Charges(ep, ps[i]) : i \in 1..Len(ps)} \cup {MissingCode[n] : n \in {m \in Required(ep) : Occ(ps, m) = {}}}
\* values the parameter may take (a repeated parameter: any of its occurrences)
ValuesOf(ep, ps, n) == IF Occ(ps, n) = {} THEN (IF n \in Required(ep) THEN {} ELSE {Default(n)})
                       ELSE UNION {Values(ep, o) : o \in Occ(ps, n)}
\* 400 must be answered
Definite(ep, ps) == \E n \in NamesOf(ep) : ValuesOf(ep, ps, n) = {}
\* the requests, every parameter spelled out, this one may stand for
RECURSIVE Prod(_, _)
Prod(names, vals) == IF names = {} THEN {<<>>}
                     ELSE LET n == CHOOSE x \in names : TRUE IN {(n :> v) @@ f : v \in vals[n], f \in Prod(names \ {n}, vals)}
Keys(ep, ps) == IF Definite(ep, ps) THEN {} ELSE Prod(NamesOf(ep), [n \in NamesOf(ep) |-> ValuesOf(ep, ps, n)])
EchoOf(ep, key) == [n \in (OwnNames(ep) \ {"alternatives"}) \cup {"time_of_trip", "time_type"} |-> key[n]]

\* data: what is loaded
Kinds == {"agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules"}
DataCode == [agencies |-> "MISSING_DATA_AGENCIES", services |-> "MISSING_DATA_SERVICES", nodes |-> "MISSING_DATA_NODES", lines |-> "MISSING_DATA_LINES",
             paths |-> "MISSING_DATA_PATHS", scenarios |-> "MISSING_DATA_SCENARIOS", schedules |-> "MISSING_DATA_SCHEDULES"]
\* what cannot be read without what
Needs(k) == CASE k = "lines" -> {"agencies"} [] k = "paths" -> {"nodes", "lines"} [] k = "scenarios" -> {"services", "lines", "agencies", "nodes"}
              [] k = "schedules" -> {"services", "paths", "lines"} [] OTHER -> {}
RECURSIVE Closure(_)
Closure(s) == LET t == s \cup {k \in Kinds : Needs(k) \cap s # {}} IN IF t = s THEN s ELSE Closure(t)

\* lost: kinds that may not be loaded (a directory the cache was refreshed from lacked them)
DataErrors(lost) == {DataCode[k] : k \in Closure(lost)}
AllowedAnswer(lost, ep, ps, a) ==
  \/ a.st = 400 /\ a.kind = "query_error" /\ a.code \in May(ep, ps)
  \/ a.st = 200 /\ a.kind = "data_error" /\ lost # {} /\ a.code \in DataErrors(lost)
  \/ /\ a.st = 200 /\ a.kind \in {"success", "no_routing_found"}
     /\ \E k \in Keys(ep, ps) : a.echo = EchoOf(ep, k)

CacheNames == Kinds \cup {"data_sources", "persons", "od_trips", "all"}
KnownOf(names) == {names[i] : i \in 1..Len(names)} \cap CacheNames
AllowedUpdate(names, a) ==
  /\ a.st = 200
  /\ IF KnownOf(names) = {} THEN a.kind = "error" ELSE a.kind = "success" /\ a.names = KnownOf(names)
\* refreshing a kind refreshes what refers to it, from the same directory
Touched(names) == IF "all" \in KnownOf(names) THEN Kinds ELSE Closure(KnownOf(names) \cap Kinds)
LostAfter(lost, names, lacking) == IF "all" \in KnownOf(names) THEN lacking ELSE lost \cup (Touched(names) \cap lacking)

----------------------------------------------------------------------------
\* the requests of the model: a good one, with a few things changed
O(n, c, v) == [n |-> n, c |-> c, v |-> v]
Good(ep) == [n \in NamesOf(ep) |->
  CASE n \in Points -> <<O(n, "ok", n \o "1")>> [] n = "scenario_id" -> <<O(n, "ok", "s1")>> [] n = "time_of_trip" -> <<O(n, "ok", 30000)>> [] OTHER -> <<>>]
Max == 2147483647
Variants(n) ==
  CASE n \in Points -> {O(n, "ok", n \o "1"), O(n, "ok", n \o "2"), O(n, "bad", ""), O(n, "blank", ""), O(n, "odd", n \o "1")}
    [] n = "scenario_id" -> {O(n, "ok", "s1"), O(n, "ok", "s2"), O(n, "unknown", ""), O(n, "empty", ""), O(n, "bad", ""), O(n, "blank", ""), O(n, "odd", "s1")}
    [] n = "time_of_trip" -> {O(n, "ok", 30000), O(n, "ok", 0), O(n, "ok", 86400), O(n, "ok", 115200), O(n, "ok", Max), O(n, "ok", -1), O(n, "bad", 0),
                              O(n, "blank", 0), O(n, "huge", 0), O(n, "odd", 30000)}
    [] n = "time_type" -> {O(n, "ok", 0), O(n, "ok", 1), O(n, "bad", 0), O(n, "blank", 0)}
    [] n = "alternatives" -> {O(n, "ok", 0), O(n, "ok", 1), O(n, "bad", 0)}
    [] OTHER -> {O(n, "ok", IF n = "max_travel_time" THEN 3600 ELSE Default(n)), O(n, "ok", 700), O(n, "ok", 0), O(n, "ok", -5), O(n, "ok", Max), O(n, "bad", 0),
                 O(n, "blank", 0), O(n, "huge", 0), O(n, "odd", 700)}
Seqs(n, room) == {<<>>} \cup {<<a>> : a \in Variants(n)} \cup (IF room >= 2 THEN {<<a, b>> : a, b \in Variants(n)} ELSE {})
Cost(s) == IF Len(s) = 2 THEN 2 ELSE 1
RECURSIVE Variations(_, _, _)
Variations(f, names, room) ==
  {f} \cup (IF room = 0 THEN {} ELSE
    UNION {UNION {Variations([f EXCEPT ![n] = s], {m \in names : m # n}, room - Cost(s)) : s \in Seqs(n, room) \ {f[n]}} : n \in names})
\* names in some order
OrderedNames == <<"origin", "place", "time_of_trip", "max_access_travel_time", "scenario_id", "time_type", "min_waiting_time", "alternatives",
                  "max_egress_travel_time", "max_travel_time", "destination", "max_transfer_travel_time", "max_first_waiting_time">>
RECURSIVE Flat(_, _, _)
Flat(f, i, rev) == IF i > Len(OrderedNames) THEN <<>>
                   ELSE LET n == OrderedNames[IF rev THEN Len(OrderedNames) + 1 - i ELSE i]
                        IN (IF n \in DOMAIN f THEN f[n] ELSE <<>>) \o Flat(f, i + 1, rev)
\* limits are read alike: deviations are enumerated on all of them one at a time, and in combination on two
Few(ep) == NamesOf(ep) \ {"max_egress_travel_time", "max_transfer_travel_time", "max_travel_time"}
RequestsOf(ep) == {Flat(f, 1, FALSE) : f \in Variations(Good(ep), Few(ep), MaxDev) \cup
                                             Variations(Good(ep), NamesOf(ep), IF MaxDev > 2 THEN 2 ELSE MaxDev)}
Requests == [ep \in Endpoints |-> RequestsOf(ep)]
UpdateNames == {"lines", "nodes", "all", "foo", ""}
NameLists == {<<>>} \cup {<<a>> : a \in UpdateNames} \cup {<<a, b>> : a, b \in UpdateNames} \cup {<<a, b, c>> : a, b, c \in UpdateNames}

----------------------------------------------------------------------------
\* the server
VARIABLES bug, disk, loaded, ph, ep, rq, pos, got, dups, out
vars == <<bug, disk, loaded, ph, ep, rq, pos, got, dups, out>>
Fresh(e) == [n \in NamesOf(e) |-> IF n \in Required(e) THEN "-" ELSE Default(n)]
\* integers and strings apart: what is not yet known is marked in a set
Init == /\ bug \in Bugs /\ disk = Kinds /\ loaded = Kinds
        /\ ph = "idle" /\ ep = "route" /\ rq = <<>> /\ pos = 0 /\ got = <<>> /\ dups = {} /\ out = <<>>

MKinds == {"nodes"}                                \* the model's disk loses and regains this
Disk == /\ ph = "idle"
        /\ \E k \in MKinds : disk' = IF k \in disk THEN disk \ {k} ELSE disk \cup {k}
        /\ UNCHANGED <<bug, loaded, ph, ep, rq, pos, got, dups, out>>

NotReady == CHOOSE c \in {DataCode[k] : k \in Kinds \ loaded} : TRUE
Say(a) == ph' = "sent" /\ out' = a
Err(code) == [st |-> IF bug = "status" /\ code = "INVALID_NUMERICAL_DATA" THEN 200 ELSE 400, kind |-> "query_error",
              code |-> CASE bug = "code" /\ code = "INVALID_PLACE" -> "PARAM_ERROR_UNKNOWN"
                         [] bug = "swap" /\ code = "INVALID_ORIGIN" -> "INVALID_DESTINATION" [] OTHER -> code]

Receive == /\ ph = "idle"
           /\ \E e \in Endpoints : \E r \in Requests[e] :
                /\ ep' = e /\ rq' = r
                /\ IF loaded # Kinds /\ bug # "unready"
                   THEN Say([st |-> 200, kind |-> "data_error", code |-> NotReady]) /\ pos' = 0 /\ UNCHANGED <<got, dups>>
                   ELSE /\ ph' = "own" /\ pos' = 1 /\ UNCHANGED out
                        /\ got' = [n \in NamesOf(e) |-> IF n \in Required(e) THEN <<>> ELSE
                                     IF bug = "sticky" /\ n \in DOMAIN got /\ n = "max_access_travel_time" THEN got[n] ELSE
                                     <<IF bug = "default" /\ n = "max_egress_travel_time" THEN 1201 ELSE Default(n)>>]
                        /\ dups' = {}
           /\ UNCHANGED <<bug, disk, loaded>>

Keep(v) == got' = [got EXCEPT ![rq[pos].n] = <<v>>]
\* own parameters: points and alternatives
OwnStep == /\ ph = "own" /\ pos <= Len(rq)
           /\ LET o == rq[pos] IN
              IF o.n \in Points THEN
                IF o.c \in {"ok", "odd"} THEN Keep(o.v) /\ pos' = pos + 1 /\ UNCHANGED <<ph, out>>
                ELSE IF bug = "swallow" THEN pos' = pos + 1 /\ UNCHANGED <<got, ph, out>>
                ELSE Say(Err(InvalidCode(o.n))) /\ UNCHANGED <<pos, got>>
              ELSE IF o.n = "alternatives" THEN Keep(IF o.c = "ok" THEN o.v ELSE 0) /\ pos' = pos + 1 /\ UNCHANGED <<ph, out>>
              ELSE pos' = pos + 1 /\ UNCHANGED <<got, ph, out>>
           /\ UNCHANGED <<bug, disk, loaded, ep, rq, dups>>
OwnDone == /\ ph = "own" /\ pos > Len(rq)
           /\ LET miss == {n \in OwnNames(ep) : got[n] = <<>>} IN
              IF miss # {} THEN \E n \in miss : Say(Err(MissingCode[n])) /\ UNCHANGED pos ELSE ph' = "common" /\ pos' = 1 /\ UNCHANGED out
           /\ UNCHANGED <<bug, disk, loaded, ep, rq, got, dups>>
\* the common ones: dups remembers that the last scenario seen is the empty one
CommonStep ==
  /\ ph = "common" /\ pos <= Len(rq)
  /\ LET o == rq[pos] IN
     CASE o.n = "scenario_id" ->
            (CASE o.c = "ok" \/ o.c = "odd" -> Keep(o.v) /\ dups' = {} /\ pos' = pos + 1 /\ UNCHANGED <<ph, out>>
               [] o.c = "empty" -> got' = [got EXCEPT !["scenario_id"] = <<"s1">>] /\ dups' = (IF bug = "hollow" THEN {} ELSE {"empty"}) /\ pos' = pos + 1 /\ UNCHANGED <<ph, out>>
               [] o.c = "unknown" -> pos' = pos + 1 /\ dups' = dups /\ UNCHANGED <<ph, out>> /\ (IF bug = "fallback" THEN got' = [got EXCEPT !["scenario_id"] = <<"s1">>] ELSE got' = got)
               [] OTHER -> Say(Err(IF bug = "uuid" THEN "PARAM_ERROR_UNKNOWN" ELSE "MISSING_PARAM_SCENARIO")) /\ UNCHANGED <<pos, got, dups>>)
       [] o.n = "time_type" -> Keep(IF o.c = "ok" THEN o.v ELSE 0) /\ pos' = pos + 1 /\ UNCHANGED <<ph, out, dups>>
       [] o.n \in Ints \cup {"time_of_trip"} ->
            IF o.c \in {"ok", "odd"} THEN
              /\ Keep(CASE o.n = "time_of_trip" -> o.v
                        [] bug = "zero" /\ o.v = 0 /\ o.n \in Limits -> 1
                        [] OTHER -> Norm(o.n, o.v))
              /\ pos' = pos + 1 /\ UNCHANGED <<ph, out, dups>>
            ELSE IF bug = "lax" THEN Keep(0) /\ pos' = pos + 1 /\ UNCHANGED <<ph, out, dups>>
            ELSE Say(Err("INVALID_NUMERICAL_DATA")) /\ UNCHANGED <<pos, got, dups>>
       [] OTHER -> pos' = pos + 1 /\ UNCHANGED <<got, ph, out, dups>>
  /\ UNCHANGED <<bug, disk, loaded, ep, rq>>
CommonDone ==
  /\ ph = "common" /\ pos > Len(rq)
  /\ CASE got["scenario_id"] = <<>> -> Say(Err("MISSING_PARAM_SCENARIO"))
       [] dups # {} -> Say(Err("EMPTY_SCENARIO"))
       [] got["time_of_trip"] = <<>> -> Say(Err("MISSING_PARAM_TIME_OF_TRIP"))
       [] got["time_of_trip"][1] < 0 /\ bug # "negative" -> Say(Err("MISSING_PARAM_TIME_OF_TRIP"))
       [] OTHER -> ph' = "compute" /\ UNCHANGED out
  /\ UNCHANGED <<bug, disk, loaded, ep, rq, pos, got, dups>>
Key == [n \in NamesOf(ep) |-> got[n][1]]
Compute ==
  /\ ph = "compute"
  /\ \E kind \in {"success", "no_routing_found"} :
       Say([st |-> 200, kind |-> kind, key |-> Key,
            echo |-> IF bug = "echo" /\ ep # "access" THEN [EchoOf(ep, Key) EXCEPT !["origin"] = Key["destination"]]
                     ELSE IF bug = "echotime" THEN [EchoOf(ep, Key) EXCEPT !["time_type"] = 0] ELSE EchoOf(ep, Key)])
  /\ UNCHANGED <<bug, disk, loaded, ep, rq, pos, got, dups>>

\* /updateCache: dups collects the names to be reported
URecv == /\ ph = "idle"
         /\ \E l \in NameLists : rq' = l
         /\ ph' = "update" /\ pos' = 1 /\ dups' = {} /\ ep' = "update" /\ got' = (IF bug = "sticky" THEN got ELSE <<>>)
         /\ UNCHANGED <<bug, disk, loaded, out>>
Refresh(n) == LET t == Touched(<<n>>) IN Kinds \ Closure(((Kinds \ loaded) \ t) \cup (t \ disk))
UStep == /\ ph = "update" /\ pos <= Len(rq)
         /\ LET n == rq[pos] IN
            /\ loaded' = Refresh(n)
            /\ dups' = IF n \in CacheNames \/ (bug = "stickyname" /\ dups # {}) THEN dups \cup {n} ELSE dups
         /\ pos' = pos + 1 /\ UNCHANGED <<bug, disk, ph, ep, rq, got, out>>
UDone == /\ ph = "update" /\ pos > Len(rq)
         /\ IF dups = {} /\ ~(bug = "always" /\ rq # <<>>) THEN Say([st |-> 200, kind |-> "error"])
            ELSE Say([st |-> 200, kind |-> "success", names |-> dups])
         /\ UNCHANGED <<bug, disk, loaded, ep, rq, pos, got, dups>>

Reset == /\ ph = "sent" /\ ph' = "idle" /\ out' = <<>> /\ rq' = <<>> /\ pos' = 0 /\ dups' = {} /\ ep' = "route"
         /\ got' = IF bug = "sticky" /\ "max_access_travel_time" \in DOMAIN got THEN [max_access_travel_time |-> got["max_access_travel_time"]] ELSE <<>>
         /\ UNCHANGED <<bug, disk, loaded>>

Enumerate == /\ ph = "idle" /\ \E e \in Endpoints : \E r \in Requests[e] : PrintT(<<"S", ToString(<<e, [i \in 1..Len(r) |-> <<r[i].n, r[i].c, r[i].v>>]>>)>>)
             /\ FALSE /\ UNCHANGED vars
Next == IF List THEN Enumerate ELSE Disk \/ Receive \/ OwnStep \/ OwnDone \/ CommonStep \/ CommonDone \/ Compute \/ URecv \/ UStep \/ UDone \/ Reset
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* every answer is allowed; and it is the answer to one of the requests this one may stand for
Right == ph = "sent" =>
  IF ep = "update" THEN AllowedUpdate(rq, out)
  ELSE LET lost == Kinds \ loaded
           a == [st |-> out.st, kind |-> out.kind, code |-> IF "code" \in DOMAIN out THEN out.code ELSE "", echo |-> IF "echo" \in DOMAIN out THEN out.echo ELSE <<>>]
       IN /\ AllowedAnswer(lost, ep, rq, a)
          /\ lost # {} => a.kind = "data_error"
          /\ "key" \in DOMAIN out => out.key \in Keys(ep, rq)
\* nothing of one request is left for the next
Clean == bug = "none" /\ ph = "idle" => got = <<>> /\ dups = {} /\ pos = 0
\* a wrong server is told apart
Caught == bug # "none" /\ ~Right => PrintT(<<"M", bug>>)
Correct == bug = "none" => Right
=============================================================================
