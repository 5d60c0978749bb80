----------------------------- MODULE AsyncSched -----------------------------
(* Prints a schedule for every transition of the state graph of Async, with   *)
(* Faults = 1 for every fault in every state.                                *)
EXTENDS Async, Json
VARIABLE hist
SInit == Init /\ hist = <<>>
SNext == /\ faults = 0
         /\ Next
         /\ hist' = Append(hist, last')
         /\ (Faults = 0 \/ faults' > 0) => PrintT("SCHED " \o ToJson(hist'))
SSpec == SInit /\ [][SNext]_<<vars, hist>>
View == <<mi, ws, item, qin, qout, used, done, faults, raised>>
=============================================================================
