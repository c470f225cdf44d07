----------------------------- MODULE LoaderHist -----------------------------
(* Histories of the loader to replay: the directory of the start, then refreshes (names, directory). *)
EXTENDS Loader, Json
VARIABLE hist
HInit == Init /\ hist = <<[names |-> {}, dir |-> job.dir]>>
HNext == Next /\ hist' = (IF ph = "sent" /\ ph' = "load" THEN Append(hist, [names |-> job'.names, dir |-> job'.dir]) ELSE hist)
HSpec == HInit /\ [][HNext]_<<vars, hist>>
Shown == ph = "sent" /\ left = 0 => PrintT(<<"S", ToJson(hist)>>)
=============================================================================
