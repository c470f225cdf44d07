------------------------------- MODULE Refresh -------------------------------
(***************************************************************************)
(* Refreshing the data of a running server (C15).                          *)
(*                                                                         *)
(* The files on disk come in three parts that can change independently:    *)
(* base (stops, agencies, services, lines, paths), scenarios, schedules.   *)
(* What the server holds are objects loaded from them; schedules and       *)
(* scenarios refer to base objects, and the kept per-scenario sets refer   *)
(* to schedule objects and were filtered with a scenario object.  Loading  *)
(* a part destroys the objects it had: a reference to a destroyed object   *)
(* is dangling.  Whether there is anything to serve (status) is known to   *)
(* the request handlers.                                                   *)
(*                                                                         *)
(* /updateCache loads the named parts in the order of the names; "all"     *)
(* loads base, scenarios, schedules.                                       *)
(*                                                                         *)
(* Synced: the refreshes done cover the changes on disk in one of the ways *)
(* C15 allows.  Then every query must be answered as a fresh server would. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NS,          \* scenarios
          NV,          \* versions of each part
          Len_,        \* length of the printed histories (0: none are kept)
          Bugs

Scenarios == 1..NS
Versions == 1..NV
None == 0

VARIABLES mode, bug,
          disk,        \* [base, scen, sched]: versions
          pending,     \* parts changed on disk since they were last loaded
          base, scen, sched,   \* loaded objects: [v, id, ref (id of the base objects it refers to)]
          kept,        \* scenario -> [on, scen (version filtered with), sched (id), mix]
          status,      \* what the handlers believe: is there data to serve
          last,        \* answer of the last query: [got, want] or None
          hist

vars == <<mode, bug, disk, pending, base, scen, sched, kept, status, last, hist>>
\* identities matter only as "is it the current object"
view == <<mode, bug, disk, pending, base.v, scen.v, scen.ref = base.id, sched.v, sched.mix, sched.ref = base.id,
          [s \in Scenarios |-> <<kept[s].on, kept[s].scen, kept[s].sched = sched.id>>], status, last>>

Nothing == [s \in Scenarios |-> [on |-> FALSE, scen |-> None, sched |-> None]]

\* the last version of the schedules is an empty timetable; scenario NS does not exist in the second version
Empty(v) == v = NV
Exists(v, s) == ~(v = 2 /\ s = NS)
Ready(v) == ~Empty(v)

Init ==
  /\ mode \in {"one", "all"} /\ bug \in Bugs
  /\ disk \in {[base |-> 1, scen |-> 1, sched |-> d] : d \in {1, NV}}
  /\ pending = {}
  /\ base = [v |-> 1, id |-> 1]
  /\ scen = [v |-> 1, id |-> 2, ref |-> 1]
  /\ sched = [v |-> disk.sched, id |-> 3, ref |-> 1, mix |-> FALSE]
  /\ kept = Nothing
  /\ status = Ready(disk.sched)
  /\ last = [got |-> "none", want |-> "none"]
  /\ hist = <<>>

-----------------------------------------------------------------------------
\* object identities are renamed after each step so that the state space is finite
Used == {base.id, scen.id, sched.id, scen.ref, sched.ref} \cup {kept[s].sched : s \in Scenarios}
NewId(avoid) == CHOOSE i \in 1..20 : i \notin avoid

Forgets(part) == CASE bug = "keep" -> FALSE
                   [] bug = "keepall" -> mode = "one"
                   [] bug = "keepone" -> mode = "all"
                   [] bug = "onlyscen" -> part = "scen"
                   [] OTHER -> TRUE

\* m: [base, scen, sched, kept, disk]
LoadBase(m) == [m EXCEPT !.base = [v |-> m.disk.base, id |-> NewId(m.used)], !.used = @ \cup {NewId(m.used)}]
LoadScen(m) == IF bug = "noscen" THEN m ELSE
               [m EXCEPT !.scen = [v |-> m.disk.scen, id |-> NewId(m.used), ref |-> m.base.id], !.used = @ \cup {NewId(m.used)},
                         !.kept = IF Forgets("scen") THEN Nothing ELSE @]
LoadSched(m) == [m EXCEPT !.sched = [v |-> m.disk.sched, id |-> NewId(m.used), ref |-> m.base.id, mix |-> bug = "append" /\ ~Empty(m.sched.v)],
                          !.used = @ \cup {NewId(m.used)},
                          !.kept = IF Forgets("sched") THEN Nothing ELSE @]
LoadAll(m) == IF bug = "order" THEN LoadScen(LoadBase(LoadSched(m))) ELSE LoadSched(LoadScen(LoadBase(m)))

Steps(m, names) == CASE names = "all" -> LoadAll(m)
                     [] names = "each" -> LoadSched(LoadScen(LoadBase(m)))     \* every cache by name, in the order of "all"
                     [] names = "schedules" -> LoadSched(m)
                     [] names = "schedules,scenarios" -> LoadScen(LoadSched(m))
                     [] names = "scenarios,schedules" -> LoadSched(LoadScen(m))
                     [] names = "all,all" -> LoadAll(LoadAll(m))
Names == {"all", "each", "schedules", "schedules,scenarios", "scenarios,schedules", "all,all"}
Covers(names) == CASE names = "schedules" -> {"sched"}
                   [] names \in {"schedules,scenarios", "scenarios,schedules"} -> {"sched", "scen"}
                   [] OTHER -> {"base", "scen", "sched"}

Refresh(names) ==
  /\ pending \subseteq Covers(names)                       \* the refreshes C15 speaks about
  /\ LET m == Steps([base |-> base, scen |-> scen, sched |-> sched, kept |-> kept, disk |-> disk, used |-> Used], names)
     IN /\ base' = m.base /\ scen' = m.scen /\ sched' = m.sched /\ kept' = m.kept
  /\ pending' = {}
  /\ status' = IF bug = "status" THEN status ELSE Ready(disk.sched)
  /\ last' = [got |-> "none", want |-> "none"]
  /\ hist' = IF Len_ = 0 THEN hist ELSE Append(hist, <<"R", names>>)
  /\ UNCHANGED <<mode, bug, disk>>

-----------------------------------------------------------------------------
Other(v) == (v % NV) + 1
Write(kind) ==
  /\ disk' = [disk EXCEPT !.sched = Other(@),
                          !.scen = IF kind # "sched" THEN Other(@) ELSE @,
                          !.base = IF kind = "all" THEN Other(@) ELSE @]
  /\ pending' = pending \cup (CASE kind = "sched" -> {"sched"} [] kind = "both" -> {"sched", "scen"} [] OTHER -> {"sched", "scen", "base"})
  /\ last' = [got |-> "none", want |-> "none"]
  /\ hist' = IF Len_ = 0 THEN hist ELSE Append(hist, <<"W", disk'.base, disk'.scen, disk'.sched>>)
  /\ UNCHANGED <<mode, bug, base, scen, sched, kept, status>>

-----------------------------------------------------------------------------
Synced == pending = {}
Fresh(s) == IF ~Ready(disk.sched) THEN "notready"
            ELSE IF ~Exists(disk.scen, s) THEN "unknown"
            ELSE ToString(<<disk.base, disk.scen, disk.sched>>)

SetFor(s) == IF kept[s].on THEN kept[s] ELSE [on |-> TRUE, scen |-> scen.v, sched |-> sched.id]
Got(s) == IF ~status THEN "notready"
          ELSE IF ~Exists(scen.v, s) THEN "unknown"
          ELSE IF scen.ref # base.id \/ sched.ref # base.id \/ SetFor(s).sched # sched.id THEN "dangling"
          ELSE IF sched.mix THEN "mixed"
          ELSE ToString(<<base.v, SetFor(s).scen, sched.v>>)

Query(s) ==
  /\ kept' = IF Got(s) \in {"notready", "unknown"} THEN kept
             ELSE [(IF mode = "one" /\ ~kept[s].on THEN Nothing ELSE kept) EXCEPT ![s] = SetFor(s)]
  /\ last' = IF Synced THEN [got |-> Got(s), want |-> Fresh(s)] ELSE [got |-> "none", want |-> "none"]
  /\ hist' = IF Len_ = 0 THEN hist ELSE Append(hist, <<"Q", s>>)
  /\ UNCHANGED <<mode, bug, disk, pending, base, scen, sched, status>>

Act == \/ \E s \in Scenarios : Query(s)
       \/ \E k \in {"sched", "both", "all"} : pending = {} /\ Write(k)
       \/ \E n \in Names : Refresh(n)

Next == (Len_ > 0 => Len(hist) < Len_) /\ Act

\* printed histories: some questions, a change, a refresh, questions again
Kind(h, i) == IF i \in 1..Len(h) THEN h[i][1] ELSE "-"
Shape == LET n == Len(hist') IN
  /\ Kind(hist', n) = "R" /\ pending = {} => hist'[n][2] \in {"all", "schedules"}
  /\ Kind(hist', n) # "Q" => Kind(hist', n - 1) \notin {"R", "-"}
  /\ ~(Kind(hist', n) = "Q" /\ Kind(hist', n - 1) = "Q" /\ (Kind(hist', n - 2) \in {"W", "-"} \/ Kind(hist', n - 3) = "Q"))
ShowHist == Len_ > 0 /\ Len(hist) = Len_ => PrintT(<<"S", mode, ToString(hist)>>)

Spec == Init /\ [][Next]_vars

LikeFresh == bug = "none" => last.got = last.want
\* a variant is followed up to its first wrong answer
Unbroken == last.got = last.want
Caught == (bug # "none" /\ last.got # last.want) => PrintT(<<"M", bug, last.got>>)
=============================================================================
