------------------------------- MODULE Accum -------------------------------
(* Processes accumulate contributions into two shared files HH and HT, each  *)
(* protected by its own lock file; any process can be killed at any step.    *)
(* One step is one operation on a shared file or lock, so that a behaviour   *)
(* is a schedule for the real code (AccumSched).                             *)
(* Content of a file: how often each contribution and the norm are in it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NProc,        \* number of processes
          NCall,        \* calls of add_data in each of them
          MaxKill,      \* processes that may be killed
          PreExist,     \* files exist at the start
          Locked        \* TRUE: as designed.  FALSE: no locks, to see that the invariants notice

Procs == 1..NProc
Files == {"HH", "HT"}
Contribs == (Procs \X (1..NCall))
Empty == [x \in Contribs |-> 0]

VARIABLES pc, call, lock, file, tmp, loc, alive, last
vars == <<pc, call, lock, file, tmp, loc, alive, last>>

None == [ok |-> FALSE, norm |-> 0, cnt |-> Empty]
Fresh == [ok |-> TRUE, norm |-> 1, cnt |-> Empty]

(* program of one call: the steps for HH, then for HT, first preparing, then writing *)
Start == <<"prep", "HH", "lock">>
After(s, exists) ==
    LET st == s[1] f == s[2] o == s[3] IN
    CASE st = "prep" /\ o = "lock"   -> <<st, f, "isfile">>
      [] st = "prep" /\ o = "isfile" -> IF exists THEN <<st, f, "open">> ELSE <<st, f, "mktmp">>
      [] st = "prep" /\ o = "open"   -> <<st, f, "close">>
      [] st = "prep" /\ o = "mktmp"  -> <<st, f, "rename">>
      [] st = "prep" /\ o \in {"rename", "close"} -> <<st, f, "unlock">>
      [] st = "prep" /\ o = "unlock" -> IF f = "HH" THEN <<"prep", "HT", "lock">> ELSE <<"add", "HH", "lock">>
      [] st = "add" /\ o = "lock"    -> <<st, f, "copy">>
      [] st = "add" /\ o = "copy"    -> <<st, f, "topen">>
      [] st = "add" /\ o = "topen"   -> <<st, f, "read">>
      [] st = "add" /\ o = "read"    -> <<st, f, "write">>
      [] st = "add" /\ o = "write"   -> <<st, f, "flush">>
      [] st = "add" /\ o = "flush"   -> <<st, f, "tclose">>
      [] st = "add" /\ o = "tclose"  -> <<st, f, "rename">>
      [] st = "add" /\ o = "rename"  -> <<st, f, "unlock">>
      [] st = "add" /\ o = "unlock"  -> IF f = "HH" THEN <<"add", "HT", "lock">> ELSE <<"end", "", "end">>

Init == /\ pc = [p \in Procs |-> Start]
        /\ call = [p \in Procs |-> 1]
        /\ lock = [f \in Files |-> 0]
        /\ file = [f \in Files |-> IF PreExist THEN Fresh ELSE None]
        /\ tmp = [f \in Files |-> None]
        /\ loc = [p \in Procs |-> None]
        /\ alive = [p \in Procs |-> TRUE]
        /\ last = <<0, "", "">>

Running(p) == alive[p] /\ pc[p][1] # "end"
Me(p) == <<p, call[p]>>

Step(p) ==
    LET s == pc[p]  f == s[2]  o == s[3] IN
    /\ Running(p)
    /\ (o = "lock" /\ Locked) => lock[f] = 0
    /\ lock' = IF o = "lock" /\ Locked THEN [lock EXCEPT ![f] = p]
               ELSE IF o = "unlock" /\ Locked THEN [lock EXCEPT ![f] = 0] ELSE lock
    /\ tmp' = CASE o = "mktmp" -> [tmp EXCEPT ![f] = Fresh]
                [] o = "copy" -> [tmp EXCEPT ![f] = file[f]]
                [] o = "flush" -> [tmp EXCEPT ![f] = [loc[p] EXCEPT !.cnt[Me(p)] = @ + 1]]
                [] o = "rename" -> [tmp EXCEPT ![f] = None]
                [] OTHER -> tmp
    /\ loc' = IF o = "read" THEN [loc EXCEPT ![p] = tmp[f]] ELSE loc
    /\ file' = IF o = "rename" THEN [file EXCEPT ![f] = tmp[f]] ELSE file
    /\ LET n == After(s, file[f].ok) IN
       IF n[1] = "end" /\ call[p] < NCall
       THEN /\ pc' = [pc EXCEPT ![p] = Start]
            /\ call' = [call EXCEPT ![p] = @ + 1]
       ELSE /\ pc' = [pc EXCEPT ![p] = n]
            /\ call' = IF n[1] = "end" THEN [call EXCEPT ![p] = @ + 1] ELSE call
    /\ last' = <<p, o, f>>
    /\ UNCHANGED alive

Kill(p) ==                 \* the operating system releases the locks of a killed process
    /\ Running(p)
    /\ Cardinality({q \in Procs : ~alive[q]}) < MaxKill
    /\ alive' = [alive EXCEPT ![p] = FALSE]
    /\ lock' = [f \in Files |-> IF lock[f] = p THEN 0 ELSE lock[f]]
    /\ last' = <<p, "kill", "">>
    /\ UNCHANGED <<pc, call, file, tmp, loc>>

Next == \E p \in Procs : Step(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

Finished(p) == ~alive[p] \/ pc[p][1] = "end"
Over == \A p \in Procs : Finished(p)
Completed(x) == x[2] < call[x[1]]                    \* the call has returned
Cut(x) == ~alive[x[1]] /\ x[2] = call[x[1]]           \* the call was interrupted

(* C09, C10 *)
ExactlyOnce == \A f \in Files : \A x \in Contribs :
    /\ Completed(x) => file[f].ok /\ file[f].cnt[x] = 1
    /\ file[f].cnt[x] <= 1
    /\ x[2] > call[x[1]] => file[f].cnt[x] = 0
NormOnce == \A f \in Files : file[f].ok => file[f].norm = 1
MutualExclusion == Locked => \A p, q \in Procs : p # q /\ Running(p) /\ Running(q) =>
    ~(pc[p][2] = pc[q][2] /\ pc[p][3] # "lock" /\ pc[q][3] # "lock")
NoDeadlock == Over \/ \E p \in Procs : ENABLED Step(p)
LocksReleased == Over => \A f \in Files : lock[f] = 0
(* what remains of "in both files or in neither": the known finding is exactly that a call killed after HH *)
(* was replaced and before HT was replaced is in HH only *)
TornOnlyInWindow == Over => \A x \in Contribs : file["HH"].cnt[x] # file["HT"].cnt[x] =>
    /\ Cut(x) /\ file["HH"].cnt[x] = 1
    /\ pc[x[1]] \in {<<"add", "HH", "unlock">>}
                    \cup {<<"add", "HT", o>> : o \in {"lock", "copy", "topen", "read", "write", "flush", "tclose", "rename"}}
NeverTorn == Over => \A x \in Contribs : file["HH"].cnt[x] = file["HT"].cnt[x]       \* does not hold: known finding
Termination == <>Over
=============================================================================
