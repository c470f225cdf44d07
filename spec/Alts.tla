-------------------------------- MODULE Alts --------------------------------
(***************************************************************************)
(* Searching for alternatives (C10, C19).                                  *)
(*                                                                         *)
(* A world is a list of journeys, the best one first, each a list of the   *)
(* lines it boards; a calculation without some lines finds the best        *)
(* journey that boards none of them.  Lines in base are excluded by the    *)
(* scenario, alternatives later in the list than lim take too long.        *)
(* The search excludes every combination of the lines of each journey      *)
(* found (besides those excluded to find it), until it has Most            *)
(* calculations or Cap journeys; combinations which contain one that left  *)
(* nothing are not tried.                                                  *)
(*                                                                         *)
(* bug names a deliberately wrong search.  Worlds on which it answers      *)
(* wrongly are printed: they are built and put before the real server.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS NL,        \* lines
          NJ,        \* journeys of a world
          Rides,     \* rides of a journey
          Wide,      \* worlds with this many journeys of one ride each
          Most, Cap, Bugs

VARIABLES world, base, lim, bug, todo, pos, tried, failed, found, n, end
vars == <<world, base, lim, bug, todo, pos, tried, failed, found, n, end>>
B(b) == bug = b

Lists == UNION {[1..k -> 1..NL] : k \in 1..Rides}
Worlds == {w \in UNION {[1..k -> Lists] : k \in 1..NJ} : \A i, j \in 1..Len(w) : i < j => w[i] # w[j]}
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == SortSeq(s, <)
Bag(s) == [x \in RangeOf(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

\* the best journey without the lines in ex, 0: none
Calc(ex, upto) ==
  LET fit == {j \in 1..upto : RangeOf(world[j]) \cap ex = {}}
  IN  IF fit = {} THEN 0 ELSE CHOOSE j \in fit : \A i \in fit : j <= i

\* combinations of the lines of a journey (a list), small ones first
RECURSIVE Pick(_,_)
Pick(s, k) ==
  IF k = 0 THEN <<<<>>>> ELSE IF Len(s) < k THEN <<>>
  ELSE LET h == Head(s)  with == Pick(Tail(s), k - 1)
       IN  [i \in 1..Len(with) |-> <<h>> \o with[i]] \o Pick(Tail(s), k)
RECURSIVE UpTo(_,_)
UpTo(s, k) == IF k = 0 THEN <<>> ELSE UpTo(s, k - 1) \o Pick(s, k)
Combos(s) == UpTo(s, Len(s))

Init ==
  /\ \/ world \in Worlds /\ base \in {{}, {1}}
     \/ \E k \in Wide : world = [i \in 1..k |-> <<i>>] /\ base = {}
  /\ lim \in {Len(world)} \cup (IF Len(world) < 4 THEN 1..Len(world) ELSE {})
  /\ bug \in Bugs
  /\ todo = <<>> /\ pos = 1 /\ tried = {} /\ failed = {} /\ found = <<>> /\ n = 0 /\ end = "first"

Plain == Calc(base, Len(world))

FirstOne ==
  /\ end = "first"
  /\ IF Plain = 0 THEN end' = "none" /\ UNCHANGED <<found, todo, tried, n>>
     ELSE /\ found' = <<Plain>> /\ n' = (IF B("fewer") THEN 0 ELSE 2) /\ end' = "more"
          /\ todo' = Combos(Sorted(world[Plain])) /\ tried' = RangeOf(Combos(Sorted(world[Plain])))
  /\ UNCHANGED <<world, base, lim, bug, pos, failed>>

Known(j) ==
  LET old == IF B("lastonly") THEN {found[Len(found)]} ELSE RangeOf(found)
  IN  ~B("again") /\ \E o \in old : Bag(world[o]) = Bag(world[j])

More ==
  /\ end = "more"
  /\ IF pos > Len(todo) \/ n >= Most \/ ~(IF B("cap") THEN Len(found) <= Cap ELSE IF B("nocap") THEN TRUE ELSE Len(found) < Cap)
     THEN end' = "done" /\ UNCHANGED <<todo, pos, tried, failed, found, n>>
     ELSE LET c == todo[pos]
              j == Calc(RangeOf(c) \cup (IF B("base") THEN {} ELSE base), lim)
              new == SelectSeq(Combos(Sorted(world[j])), LAMBDA x : Sorted(x \o c) \notin tried)
              ext == [i \in 1..Len(new) |-> Sorted(new[i] \o c)]
          IN  /\ pos' = pos + 1
              /\ n' = (IF B("fewer") /\ j = 0 THEN n ELSE n + 1)
              /\ IF j = 0 THEN failed' = failed \cup {c} /\ end' = (IF B("giveup") THEN "none" ELSE "more") /\ UNCHANGED <<found, todo, tried>>
                 ELSE /\ UNCHANGED failed /\ end' = "more"
                      /\ IF Known(j) THEN UNCHANGED <<found, todo, tried>>
                         ELSE /\ found' = (IF B("front") /\ Len(world[j]) < Len(world[found[1]]) THEN <<j>> \o found ELSE Append(found, j))
                              /\ todo' = todo \o SelectSeq(ext, LAMBDA x : ~\E f \in failed : RangeOf(f) \subseteq RangeOf(x))
                              /\ tried' = tried \cup RangeOf(ext)
  /\ UNCHANGED <<world, base, lim, bug>>

Next == FirstOne \/ More
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == end \in {"none", "done"}
Right ==
  /\ end = "none" <=> Plain = 0
  /\ end = "done" =>
       /\ found[1] = Plain
       /\ \A i, j \in 1..Len(found) : i < j => Bag(world[found[i]]) # Bag(world[found[j]])
       /\ \A i \in 1..Len(found) : RangeOf(world[found[i]]) \cap base = {} /\ found[i] >= Plain
       /\ Len(found) <= Cap /\ n >= Len(found)
Correct == bug = "none" /\ Over => Right
Ends == <>Over
Told == bug # "none" /\ Over /\ ~Right => PrintT("W " \o ToJson([bug |-> bug, world |-> world, base |-> base, lim |-> lim]))
=============================================================================
