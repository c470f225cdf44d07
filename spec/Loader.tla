------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Loading cache directories, at start-up and on /updateCache (C17).       *)
(*                                                                         *)
(* A directory is a set of faults: [file, idx, what, hit, gone]            *)
(*   file  a collection (a member of Order), or "line" / "stop" / "person" *)
(*         / "odtrip": a file of one line, stop, data source               *)
(*   what  "missing"   the file is not there                               *)
(*         "bad"       it is empty, cut, or its bits are changed: anything *)
(*                     may be read from it, or nothing                     *)
(*         "dangling"  it refers to what the other files do not define, or *)
(*                     its lists do not fit; hit: the trips touched by it, *)
(*                     gone: those of them which cannot be used            *)
(*                                                                         *)
(* The first part says which answers are right, whatever the loader does.  *)
(* The second is a loader, kind by kind; its behaviours are right, those   *)
(* of wrong loaders are told apart.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Order == <<"nodes", "dataSources", "persons", "odTrips", "agencies", "services", "lines", "paths", "scenarios", "schedules">>
Kinds == {Order[i] : i \in 1..Len(Order)}
Pos(k) == CHOOSE i \in 1..Len(Order) : Order[i] = k
Side == {"dataSources", "persons", "odTrips"}
Routing == Kinds \ Side
Code == [agencies |-> "MISSING_DATA_AGENCIES", services |-> "MISSING_DATA_SERVICES", nodes |-> "MISSING_DATA_NODES", lines |-> "MISSING_DATA_LINES",
         paths |-> "MISSING_DATA_PATHS", scenarios |-> "MISSING_DATA_SCENARIOS", schedules |-> "MISSING_DATA_SCHEDULES"]
Needs(k) == CASE k = "persons" -> {"dataSources"} [] k = "odTrips" -> {"dataSources", "persons", "nodes"}
              [] k = "lines" -> {"agencies"} [] k = "paths" -> {"nodes", "lines"}
              [] k = "scenarios" -> {"services", "lines", "agencies", "nodes"}
              [] k = "schedules" -> {"services", "paths", "lines"} [] OTHER -> {}
RECURSIVE Closure(_)
Closure(s) == LET t == s \cup {k \in Kinds : Needs(k) \cap s # {}} IN IF t = s THEN s ELSE Closure(t)

KindOf(f) == CASE f.file = "line" -> "schedules" [] f.file = "stop" -> "nodes" [] f.file = "person" -> "persons" [] f.file = "odtrip" -> "odTrips" [] OTHER -> f.file
Touched(names) == IF "all" \in names THEN Kinds ELSE Closure(names \cap Kinds)

-----------------------------------------------------------------------------
\* What is known of the data after loading: void, kinds of which anything or nothing may have been loaded; miss, kinds that are
\* not there; lfault, per line what is wrong with its file; frail: the stops whose file is not there.
BadKinds(dir) == {KindOf(f) : f \in {g \in dir : g.what \in {"bad", "dangling"} /\ g.file \notin {"line", "person", "odtrip"}}}
MissKinds(dir, nlines) == {f.file : f \in {g \in dir : g.what = "missing" /\ g.file \in Routing}}
                          \cup (IF \A l \in 1..nlines : \E f \in dir : f.file = "line" /\ f.idx = l /\ f.what = "missing" THEN {"schedules"} ELSE {})
LineFaults(dir, nlines) == [l \in 1..nlines |-> {f \in dir : f.file = "line" /\ f.idx = l}]
Frail(dir) == {f.idx : f \in {g \in dir : g.file = "stop"}}
AfterStart(dir, nlines) ==
  LET b == BadKinds(dir)
      first == IF b = {} THEN Len(Order) + 1 ELSE CHOOSE i \in {Pos(k) : k \in b} : \A j \in {Pos(k) : k \in b} : i <= j
      m == MissKinds(dir, nlines)
  IN [void |-> {Order[i] : i \in {j \in 1..Len(Order) : j >= first}}, miss |-> m, lfault |-> LineFaults(dir, nlines), frail |-> Frail(dir)]
AfterRefresh(st, names, dir, nlines) ==
  LET t == Touched(names) IN
  [void |-> Closure((st.void \ t) \cup (BadKinds(dir) \cap t)), miss |-> (st.miss \ t) \cup (MissKinds(dir, nlines) \cap t),
   lfault |-> IF "schedules" \in t THEN LineFaults(dir, nlines) ELSE st.lfault, frail |-> IF "nodes" \in t THEN Frail(dir) ELSE st.frail]

Void(st) == st.void \cap Routing
\* the trips that must be served, and that may be; trip -> line: tl[t].line, trip -> its stops: tl[t].stops
\* (a stop without its file has no walks, not even to itself: its trips may be out of reach)
Must(st, tl) == IF st.miss # {} \/ Void(st) # {} THEN {} ELSE {t \in DOMAIN tl : st.lfault[tl[t].line] = {} /\ tl[t].stops \cap st.frail = {}}
Poss(st, tl) == {t \in DOMAIN tl : \A f \in st.lfault[tl[t].line] : f.what # "missing" /\ t \notin f.gone}
Intact(st) == st.miss = {} /\ Void(st) = {} /\ st.frail = {} /\ \A l \in DOMAIN st.lfault : st.lfault[l] = {}
Odd(st, tl, t) == Void(st) # {} \/ tl[t].stops \cap st.frail # {} \/ (\E f \in st.lfault[tl[t].line] : f.what = "bad" \/ (f.what = "dangling" /\ t \in f.hit))
AnyLineFault(st) == \E l \in DOMAIN st.lfault : \E f \in st.lfault[l] : f.what # "missing"

\* the answers to a set of probes: each [t (the trip it looks for, 0: none in particular), kind, code, vis]
DataError(st, tl, a) ==
  /\ a.kind = "data_error"
  /\ a.code \in {Code[k] : k \in st.miss \cup Void(st)} \cup (IF Must(st, tl) = {} /\ AnyLineFault(st) THEN {Code["schedules"]} ELSE {})
Served(st, tl, a) ==
  /\ st.miss = {}
  /\ \/ a.kind = "query_error" /\ Void(st) \cap {"scenarios", "services"} # {} /\ a.code \in {"MISSING_PARAM_SCENARIO", "EMPTY_SCENARIO"}
     \/ /\ a.kind \in {"success", "no_routing_found"}
        /\ Intact(st) => a.vis = "yes"                    \* the answer given before anything was wrong
        /\ a.t # 0 => CASE a.vis = "yes" -> a.t \in Poss(st, tl)
                        [] a.vis = "no" -> a.t \notin Must(st, tl)
                        [] OTHER -> Odd(st, tl, a.t)
AllowedAnswers(st, tl, as) ==
  \/ \A a \in as : DataError(st, tl, a) /\ \A b \in as : b.code = a.code
  \/ \A a \in as : Served(st, tl, a)

-----------------------------------------------------------------------------
\* the loader, on two lines with a trip each
CONSTANTS Bugs, MaxFaults, Turns
NL == 2
TL == <<[line |-> 1, stops |-> {1, 2}], [line |-> 2, stops |-> {2, 3}]>>
F(file, idx, what, hit) == [file |-> file, idx |-> idx, what |-> what, hit |-> hit, gone |-> hit]
AllFaults ==
  {F(k, 0, w, {}) : k \in {"nodes", "dataSources", "agencies", "services", "lines", "paths", "scenarios"}, w \in {"missing", "bad"}}
  \cup {F(k, 0, "dangling", {}) : k \in {"lines", "paths", "scenarios"}}
  \cup {F("line", l, w, {}) : l \in 1..NL, w \in {"missing", "bad"}} \cup {F("line", l, "dangling", {l}) : l \in 1..NL}
  \cup {F("stop", 1, w, {}) : w \in {"missing", "bad", "dangling"}}
  \cup {F(k, 1, w, {}) : k \in {"person", "odtrip"}, w \in {"missing", "bad", "dangling"}}
Coherent(d) == \A f, g \in d : f.file = g.file /\ f.idx = g.idx => f = g
RECURSIVE Dirs(_)
Dirs(n) == IF n = 0 THEN {{}} ELSE LET D == Dirs(n - 1) IN D \cup {d \in {e \cup {f} : e \in D, f \in AllFaults} : Coherent(d)}
DirSet == Dirs(MaxFaults)
One == Dirs(1)
NameSets == {{k} : k \in Kinds} \cup {{"all"}, {"lines", "scenarios"}, {"agencies", "nodes"}}

VARIABLES bug, st,      \* what is known of the data
          have,         \* what the loader has of each kind: "none", "part", "all"; trips: the set of loaded trips
          trips, dirty, \* dirty: kinds whose objects were replaced after others came to refer to them
          job, status, ph, as, dead, left
vars == <<bug, st, have, trips, dirty, job, status, ph, as, dead, left>>

StatusOrder == <<"agencies", "services", "nodes", "lines", "paths", "scenarios">>
StatusOf(h, ts) ==
  LET e == {i \in 1..6 : h[StatusOrder[i]] = "none"} IN
  IF e # {} THEN (IF bug = "misname" THEN StatusOrder[CHOOSE i \in 1..6 : ~(i \in e) \/ Cardinality(e) = 6] ELSE StatusOrder[CHOOSE i \in e : \A j \in e : i <= j])
  ELSE IF ts = {} THEN "schedules" ELSE "ready"

FaultsOf(dir, k) == {f \in dir : KindOf(f) = k}
\* what loading kind k from dir may yield: records [h, err, die]
Outcome(h, err, die) == [h |-> h, err |-> err, die |-> die]
DepsWhole(k) == \A n \in Needs(k) : have[n] = "all"
Loads(dir, k) ==
  LET fs == FaultsOf(dir, k)
      own == {f \in fs : f.file = k}
  IN IF \E f \in own : f.what = "missing" THEN {Outcome(IF bug = "keepold" /\ job.refresh THEN have[k] ELSE "none", IF bug = "enoent" THEN TRUE ELSE FALSE, FALSE)}
     ELSE IF k \in {"persons", "odTrips"} THEN {Outcome("all", FALSE, FALSE)}
     ELSE IF k = "scenarios" THEN
       (IF \E f \in own : f.what = "bad" THEN {Outcome(h, e, FALSE) : h \in {"none", "part", "all"}, e \in BOOLEAN} ELSE {Outcome("all", FALSE, FALSE)})
     ELSE IF \E f \in fs : f.what = "bad" \/ (f.what = "dangling" /\ f.file # "stop") THEN
       (IF bug = "uncaught" THEN {Outcome("none", TRUE, TRUE)} ELSE {Outcome(h, e, FALSE) : h \in {"none", "part", "all"}, e \in BOOLEAN})
     ELSE IF ~DepsWhole(k) THEN {Outcome("none", TRUE, FALSE), Outcome("part", TRUE, FALSE)}
     ELSE {Outcome("all", FALSE, FALSE)}
\* schedules: the trips read
LineTrips(dir, l) ==
  LET fs == {f \in dir : f.file = "line" /\ f.idx = l} IN
  IF \E f \in fs : f.what = "missing" THEN {{}}
  ELSE IF \E f \in fs : f.what = "dangling" THEN {IF bug = "nocheck" THEN {l} ELSE {}}
  ELSE IF \E f \in fs : f.what = "bad" THEN {{}, {l}}
  ELSE IF have["services"] = "all" /\ have["paths"] = "all" /\ have["lines"] = "all" THEN {{l}}
  ELSE IF have["lines"] = "none" \/ have["paths"] = "none" \/ have["services"] = "none" THEN {{}} ELSE {{}, {l}}
Wrong(dir) == \E f \in dir : f.file = "line" /\ f.what # "missing"
Dies(dir) == \E f \in dir : f.file = "line" /\ f.what = "dangling" /\ bug = "dangling"

Init == /\ bug \in Bugs /\ st = [void |-> {}, miss |-> {}, lfault |-> [l \in 1..NL |-> {}], frail |-> {}]
        /\ have = [k \in Kinds |-> "none"] /\ trips = {} /\ dirty = {}
        /\ \E d \in DirSet : job = [refresh |-> FALSE, names |-> {"all"}, dir |-> d, todo |-> Order]
        /\ status = "?" /\ ph = "load" /\ as = {} /\ dead = FALSE /\ left = Turns

Step ==
  /\ ph = "load" /\ job.todo # <<>>
  /\ LET k == Head(job.todo) IN
     IF k = "schedules" THEN
       /\ \E a \in LineTrips(job.dir, 1), b \in LineTrips(job.dir, 2) :
            trips' = IF bug = "stopline" /\ (\E f \in job.dir : f.file = "line" /\ f.idx = 1 /\ f.what # "missing") THEN a
                     ELSE IF bug = "loseall" /\ Wrong(job.dir) THEN {}
                     ELSE IF bug = "append" THEN trips \cup a \cup b ELSE a \cup b
       /\ have' = [have EXCEPT !["schedules"] = "all"]
       /\ dead' = (dead \/ Dies(job.dir)) /\ job' = [job EXCEPT !.todo = <<>>]
       /\ dirty' = dirty \ {k}
     ELSE \E o \in Loads(job.dir, k) :
       /\ have' = [have EXCEPT ![k] = o.h] /\ dead' = (dead \/ o.die) /\ UNCHANGED trips
       /\ job' = [job EXCEPT !.todo = IF o.err /\ ~job.refresh THEN <<>> ELSE Tail(@)]
       /\ dirty' = (dirty \ {k}) \cup (IF job.refresh THEN {d \in Kinds : k \in Needs(d)} ELSE {})
  /\ UNCHANGED <<bug, st, status, ph, as, left>>
Loaded ==
  /\ ph = "load" /\ job.todo = <<>>
  /\ st' = IF job.refresh THEN AfterRefresh(st, job.names, job.dir, NL) ELSE AfterStart(job.dir, NL)
  /\ status' = IF bug = "stale" /\ job.refresh THEN status ELSE StatusOf(have, trips)
  /\ ph' = "ready" /\ UNCHANGED <<bug, have, trips, dirty, job, as, dead, left>>
\* three probes: one for each trip and one for anything
Probe ==
  /\ ph = "ready"
  /\ LET ans(t) == IF status # "ready" /\ ~(bug = "somereq" /\ t = 0) THEN [t |-> t, kind |-> "data_error", code |-> Code[status], vis |-> "no"]
                   ELSE IF have["scenarios"] = "part" THEN [t |-> t, kind |-> "query_error", code |-> "MISSING_PARAM_SCENARIO", vis |-> "no"]
                   ELSE IF have["scenarios"] = "none" THEN [t |-> t, kind |-> "query_error", code |-> "MISSING_PARAM_SCENARIO", vis |-> "no"]
                   ELSE IF t = 0 THEN [t |-> t, kind |-> "success", code |-> "", vis |-> IF trips = {1, 2} THEN "yes" ELSE "odd"]
                   ELSE [t |-> t, kind |-> IF t \in trips THEN "success" ELSE "no_routing_found", code |-> "", vis |-> IF t \in trips THEN "yes" ELSE "no"]
     IN as' = {ans(t) : t \in 0..2}
  /\ dead' = (dead \/ (status = "ready" /\ dirty \cap Routing # {}))
  /\ ph' = "sent" /\ UNCHANGED <<bug, st, have, trips, dirty, job, status, left>>
RECURSIVE InOrder(_, _)
InOrder(s, i) == IF i > Len(Order) THEN <<>> ELSE (IF Order[i] \in s THEN <<Order[i]>> ELSE <<>>) \o InOrder(s, i + 1)
Again ==
  /\ ph = "sent" /\ left > 0
  /\ \E ns \in NameSets, d \in One :
       job' = [refresh |-> TRUE, names |-> ns, dir |-> d, todo |-> InOrder(IF bug = "nocascade" THEN (IF "all" \in ns THEN Kinds ELSE ns \cap Kinds) ELSE Touched(ns), 1)]
  /\ left' = left - 1 /\ ph' = "load" /\ as' = {} /\ UNCHANGED <<bug, st, have, trips, dirty, status, dead>>
Next == Step \/ Loaded \/ Probe \/ Again
Spec == Init /\ [][Next]_vars

Right == ~dead /\ (ph = "sent" => AllowedAnswers(st, TL, as))
Correct == bug = "none" => Right
\* (the behaviours of a wrong loader are left once one of them was told apart)
Wrongs == <<"uncaught", "dangling", "nocheck", "stopline", "loseall", "append", "misname", "stale", "somereq", "nocascade", "keepold", "enoent">>
Seen == 10 + CHOOSE j \in 1..Len(Wrongs) : Wrongs[j] = bug
ASSUME \A j \in 1..Len(Wrongs) : TLCSet(10 + j, 0)
Caught == bug # "none" /\ ~Right => PrintT(<<"M", bug>>) /\ TLCSet(Seen, 1)
Unseen == bug = "none" \/ TLCGet(Seen) = 0
\* an intact refresh of everything brings everything back
Recovers == bug = "none" /\ ph = "sent" /\ job.names = {"all"} /\ job.dir = {} => \A a \in as : a.t # 0 => a.vis = "yes"
=============================================================================
