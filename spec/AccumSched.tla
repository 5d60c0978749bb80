----------------------------- MODULE AccumSched -----------------------------
(* Prints a schedule for every transition of the state graph of Accum: the   *)
(* first found path to its source state, and the transition.                 *)
EXTENDS Accum, Json
VARIABLE hist
SInit == Init /\ hist = <<>>
SNext == Next /\ hist' = Append(hist, last') /\ PrintT("SCHED " \o ToJson(hist'))
SSpec == SInit /\ [][SNext]_<<vars, hist>>
View == <<pc, call, lock, file, tmp, loc, alive>>
=============================================================================
