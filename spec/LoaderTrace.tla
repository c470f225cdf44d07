----------------------------- MODULE LoaderTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the real server against module Loader (C17).      *)
(* A run: nlines, tl (line of each trip), ev: events                       *)
(*   [start |-> bool, names, dir (faults), up (still there, no report of a *)
(*    sanitizer), as (answers: t, ok, kind, code, vis)]                    *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[j] : j \in 1..Len(s)}
DirOf(fs) == {[file |-> f.file, idx |-> f.idx, what |-> f.what, hit |-> SetOf(f.hit), gone |-> SetOf(f.gone)] : f \in SetOf(fs)}

VARIABLES k, i, cur, fin
tvars == <<vars, k, i, cur, fin>>
R == Runs[k]
Tl == [t \in 1..Len(R.tl) |-> [line |-> R.tl[t].line, stops |-> SetOf(R.tl[t].stops)]]
Fresh(n) == [void |-> {}, miss |-> {}, lfault |-> [l \in 1..n |-> {}], frail |-> {}]
TraceInit == /\ k \in 1..Len(Runs) /\ i = 1 /\ cur = Fresh(Runs[k].nlines) /\ fin = FALSE
             /\ bug = "none" /\ st = 0 /\ have = 0 /\ trips = 0 /\ dirty = 0 /\ job = 0 /\ status = 0 /\ ph = 0 /\ as = 0 /\ dead = FALSE /\ left = 0
Judge(e, s) ==
  IF ~e.up THEN {"C17.alive"}
  ELSE IF \E a \in SetOf(e.as) : ~a.ok THEN {"C17.form"}
  ELSE IF AllowedAnswers(s, Tl, SetOf(e.as)) THEN {}
  ELSE LET A == SetOf(e.as) IN
       CASE \A a \in A : a.kind = "data_error" -> (IF s.miss \cup Void(s) = {} THEN {"C17.lost"} ELSE {"C17.named"})
         [] \E a \in A : a.kind = "data_error" -> {"C17.mixed"}
         [] OTHER -> (IF s.miss # {} THEN {"C17.unnamed"} ELSE IF Intact(s) THEN {"C17.recover"} ELSE {"C17.served"})
Consume == /\ i <= Len(R.ev)
           /\ LET e == R.ev[i]
                  s == IF e.start THEN AfterStart(DirOf(e.dir), R.nlines) ELSE AfterRefresh(cur, SetOf(e.names), DirOf(e.dir), R.nlines)
                  v == Judge(e, s) IN
              /\ cur' = s
              /\ IF v = {} THEN TRUE ELSE PrintT(<<"F", R.id, i, v>>)
           /\ i' = i + 1 /\ UNCHANGED <<vars, k, fin>>
TraceNext == Consume
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
