---------------------------- MODULE HttpApiTrace ----------------------------
(***************************************************************************)
(* Recorded requests and answers of the real server against module HttpApi *)
(* (C18).  A run is what one server answered, in order.  Records:          *)
(*  t="Q": endpoint ep, parameters ps, answer: ok (one response, exact     *)
(*         length, JSON of the documented shape), st, kind, code, echo, h  *)
(*         (what identifies the answer's content), w (all data is loaded)  *)
(*  t="U": /updateCache with names, from a directory lacking some kinds;   *)
(*         answer: ok, st, kind, got (names reported)                      *)
(*  t="X": a request nothing is said about but that it is answered, ok     *)
(***************************************************************************)
EXTENDS HttpApi, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[j] : j \in 1..Len(s)}
\* the readings of every request, and the answers to the requests that can only be read one way (kept in TLC's registers: computed once)
Keys_ == TLCEval([r \in 1..Len(Runs) |-> TLCEval([j \in 1..Len(Runs[r].recs) |->
               IF Runs[r].recs[j].t = "Q" THEN TLCEval(Keys(Runs[r].recs[j].ep, Runs[r].recs[j].ps)) ELSE {}])])
ASSUME TLCSet(1, Keys_)
KeyTable == TLCGet(1)
Hashes_ == TLCEval([r \in 1..Len(Runs) |->
               LET one == {j \in 1..Len(Runs[r].recs) : Runs[r].recs[j].t = "Q" /\ Runs[r].recs[j].w /\ Runs[r].recs[j].st = 200
                                                        /\ Runs[r].recs[j].kind # "data_error" /\ Cardinality(KeyTable[r][j]) = 1}
                   ks == {<<Runs[r].recs[j].ep, CHOOSE x \in KeyTable[r][j] : TRUE>> : j \in one}
               IN TLCEval([x \in ks |-> {Runs[r].recs[j].h : j \in {m \in one : <<Runs[r].recs[m].ep, CHOOSE y \in KeyTable[r][m] : TRUE>> = x}}])])
ASSUME TLCSet(2, Hashes_)
HashTable == TLCGet(2)

VARIABLES k, i, lost, bad
tvars == <<vars, k, i, lost, bad>>
R == Runs[k]
TraceInit == /\ k \in 1..Len(Runs) /\ i = 1 /\ lost = SetOf(Runs[k].lost) /\ bad = {} /\ Init

Answered(e) ==
  IF ~e.ok THEN {"C18.form"}
  ELSE IF AllowedAnswer(lost, e.ep, e.ps, [st |-> e.st, kind |-> e.kind, code |-> e.code, echo |-> e.echo]) THEN
    (IF ~e.w \/ e.st # 200 \/ e.kind = "data_error" THEN {}
     ELSE \* the same answer as every other request that can only be read the same way
          LET H == HashTable[k]
              ks == {x \in KeyTable[k][i] : EchoOf(e.ep, x) = e.echo}
          IN IF \E x \in ks : <<e.ep, x>> \notin DOMAIN H \/ H[<<e.ep, x>>] = {e.h} \/ (Cardinality(KeyTable[k][i]) > 1 /\ e.h \in H[<<e.ep, x>>]) THEN {}
             ELSE {"C18.same"})
  ELSE CASE e.st = 400 /\ e.kind = "query_error" -> IF May(e.ep, e.ps) = {} THEN {"C18.spurious"} ELSE {"C18.code"}
         [] e.st = 200 /\ e.kind = "data_error" -> {"C18.dataerror"}
         [] e.st = 200 /\ e.kind \in {"success", "no_routing_found"} -> IF Definite(e.ep, e.ps) THEN {"C18.missed"} ELSE {"C18.echo"}
         [] OTHER -> {"C18.status"}

Updated(e) == IF ~e.ok THEN {"C18.form"}
              ELSE IF AllowedUpdate(e.names, [st |-> e.st, kind |-> e.kind, names |-> SetOf(e.got)]) THEN {} ELSE {"C18.update"}

Consume == /\ i <= Len(R.recs)
           /\ LET e == R.recs[i]
                  v == CASE e.t = "Q" -> Answered(e) [] e.t = "U" -> Updated(e) [] OTHER -> IF e.ok THEN {} ELSE {"C18.form"} IN
              /\ bad' = bad \cup v
              /\ IF v = {} THEN TRUE ELSE PrintT(<<"F", R.id, i, v>>)
              /\ lost' = IF e.t = "U" THEN LostAfter(lost, e.names, SetOf(e.lacking)) ELSE lost
           /\ i' = i + 1 /\ UNCHANGED <<vars, k>>
Finish == /\ i = Len(R.recs) + 1 /\ i' = i + 1
          /\ IF R.alive THEN TRUE ELSE PrintT(<<"F", R.id, i, {"C18.alive"}>>)
          /\ UNCHANGED <<vars, k, lost, bad>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
