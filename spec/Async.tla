------------------------------- MODULE Async -------------------------------
(* Asynchronous training (Mode "add": two reader processes) and prediction   *)
(* (Mode "predict": a reader and a writer process) over NB batches.  Items   *)
(* in queues are batch numbers 1..NB; 0 tells a process to stop.  Up to      *)
(* Faults times a process dies (is killed, or one of its operations fails),  *)
(* or an operation of the main process fails.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NB, Mode,
          Cap,          \* capacity of the queues with data
          Faults

Readers == IF Mode = "add" THEN {1, 2} ELSE {1}
Writers == IF Mode = "add" THEN {} ELSE {2}
Workers == {1, 2}

(* program of the main process *)
RECURSIVE Loop(_)
Item(b) == IF b <= NB THEN b ELSE 0
Loop(b) == IF b > NB + 1 THEN <<>>
           ELSE (IF Mode = "add"
                 THEN <<<<"put", 1, Item(b)>>, <<"put", 2, Item(b)>>>> \o
                      (IF b > 1 THEN <<<<"get", 1, 0>>, <<"get", 2, 0>>>> ELSE <<>>)
                 ELSE <<<<"put", 1, Item(b)>>>> \o
                      (IF b > 1 THEN <<<<"get", 1, 0>>, <<"put", 2, b - 1>>>> ELSE <<>>))
                \o Loop(b + 1)
Prog == <<<<"start", 1, 0>>, <<"start", 2, 0>>>> \o Loop(1)
        \o (IF Mode = "add" THEN <<>> ELSE <<<<"put", 2, 0>>>>)
        \o <<<<"join", 1, 0>>, <<"join", 2, 0>>>>

VARIABLES mi,          \* position of the main process in its program
          ws,          \* state of every worker: "new", "get", "work", "put", "exit", "dead"
          item,        \* what it works on
          qin, qout,   \* queues to and from every worker
          used,        \* batches that main took from the queue of every reader
          done,        \* batches read by readers / written by the writer
          faults,      \* number of faults so far
          raised,      \* the call ends with an exception
          last
vars == <<mi, ws, item, qin, qout, used, done, faults, raised, last>>

InCap(p) == IF p \in Writers THEN Cap ELSE 1000

Init == /\ mi = 1
        /\ ws = [p \in Workers |-> "new"]
        /\ item = [p \in Workers |-> 0]
        /\ qin = [p \in Workers |-> <<>>]
        /\ qout = [p \in Workers |-> <<>>]
        /\ used = [p \in Workers |-> <<>>]
        /\ done = [p \in Workers |-> <<>>]
        /\ faults = 0
        /\ raised = FALSE
        /\ last = <<"", "">>

Stopped == {"new", "exit", "dead"}
Over == (mi > Len(Prog) \/ raised) /\ \A p \in Workers : ws[p] \in Stopped

(* the partner of the operation is dead, and the operation has to wait for it *)
DeadEnd == LET o == Prog[mi][1]  p == Prog[mi][2] IN
           /\ ws[p] = "dead"
           /\ CASE o = "put" -> Len(qin[p]) >= InCap(p)
                [] o = "get" -> qout[p] = <<>>
                [] o = "join" -> TRUE
                [] OTHER -> FALSE
Main == /\ mi <= Len(Prog)
        /\ ~raised
        /\ LET o == Prog[mi][1]  p == Prog[mi][2]  x == Prog[mi][3] IN
           /\ last' = <<"M", o>>
           /\ UNCHANGED <<item, done, faults>>
           /\ IF DeadEnd
              THEN raised' = TRUE /\ UNCHANGED <<mi, ws, qin, qout, used>>
              ELSE /\ mi' = mi + 1
                   /\ raised' = FALSE
                   /\ CASE o = "start" -> ws' = [ws EXCEPT ![p] = "get"] /\ UNCHANGED <<qin, qout, used>>
                        [] o = "put" -> /\ Len(qin[p]) < InCap(p)
                                        /\ qin' = [qin EXCEPT ![p] = Append(@, x)]
                                        /\ UNCHANGED <<ws, qout, used>>
                        [] o = "get" -> /\ qout[p] # <<>>
                                        /\ used' = [used EXCEPT ![p] = Append(@, Head(qout[p]))]
                                        /\ qout' = [qout EXCEPT ![p] = Tail(@)]
                                        /\ UNCHANGED <<ws, qin>>
                        [] o = "join" -> ws[p] = "exit" /\ UNCHANGED <<ws, qin, qout, used>>
(* after a failure the main process stops the others *)
CleanUp == /\ raised
           /\ \E p \in Workers : /\ ws[p] \notin Stopped
                                 /\ ws' = [ws EXCEPT ![p] = "dead"]
           /\ last' = <<"M", "stop">>
           /\ UNCHANGED <<mi, item, qin, qout, used, done, faults, raised>>
(* a process is killed; what it sent last may be lost *)
Kill(p) == /\ faults < Faults
           /\ ws[p] \notin Stopped
           /\ ws' = [ws EXCEPT ![p] = "dead"]
           /\ faults' = faults + 1
           /\ qout' \in {qout, [qout EXCEPT ![p] = <<>>]}
           /\ last' = <<"P" \o ToString(p), "kill">>
           /\ UNCHANGED <<mi, item, qin, used, done, raised>>
(* reading or writing a file fails *)
Fail(p) == /\ faults < Faults
           /\ ws[p] = "work"
           /\ ws' = [ws EXCEPT ![p] = "dead"]
           /\ faults' = faults + 1
           /\ last' = <<"P" \o ToString(p), "fail">>
           /\ UNCHANGED <<mi, item, qin, qout, used, done, raised>>
MainFail == /\ faults < Faults
            /\ mi <= Len(Prog) /\ Prog[mi][1] # "start" /\ ~raised
            /\ raised' = TRUE
            /\ faults' = faults + 1
            /\ last' = <<"M", "fail">>
            /\ UNCHANGED <<mi, ws, item, qin, qout, used, done>>
Worker(p) ==
        /\ ws[p] \in {"get", "work", "put"}
        /\ UNCHANGED <<mi, used, faults, raised>>
        /\ CASE ws[p] = "get" -> /\ qin[p] # <<>>
                                 /\ item' = [item EXCEPT ![p] = Head(qin[p])]
                                 /\ qin' = [qin EXCEPT ![p] = Tail(@)]
                                 /\ ws' = [ws EXCEPT ![p] = IF Head(qin[p]) = 0 THEN "exit" ELSE "work"]
                                 /\ last' = <<"P" \o ToString(p), "get">>
                                 /\ UNCHANGED <<qout, done>>
             [] ws[p] = "work" -> /\ done' = [done EXCEPT ![p] = Append(@, item[p])]
                                  /\ ws' = [ws EXCEPT ![p] = IF p \in Readers THEN "put" ELSE "get"]
                                  /\ last' = <<"P" \o ToString(p), IF p \in Readers THEN "read" ELSE "write">>
                                  /\ UNCHANGED <<item, qin, qout>>
             [] ws[p] = "put" -> /\ Len(qout[p]) < Cap
                                 /\ qout' = [qout EXCEPT ![p] = Append(@, item[p])]
                                 /\ ws' = [ws EXCEPT ![p] = "get"]
                                 /\ last' = <<"P" \o ToString(p), "put">>
                                 /\ UNCHANGED <<item, qin, done>>
Next == Main \/ CleanUp \/ MainFail \/ \E p \in Workers : Worker(p) \/ Kill(p) \/ Fail(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(CleanUp) /\ \A p \in Workers : WF_vars(Worker(p))

All == [i \in 1..NB |-> i]
Prefix(s, u) == Len(s) <= Len(u) /\ \A i \in DOMAIN s : s[i] = u[i]
(* C11 *)
InOrderOnce == /\ \A p \in Workers : Prefix(done[p], All)
               /\ \A p \in Readers : Prefix(used[p], All)
Complete == Over /\ ~raised => /\ \A p \in Workers : done[p] = All
                               /\ \A p \in Readers : used[p] = All
RaisedForAReason == raised => faults > 0
NothingLeft == Over => \A p \in Workers : /\ ws[p] \in Stopped
                                           /\ ~raised => ws[p] = "exit" /\ qin[p] = <<>> /\ qout[p] = <<>>
NoDeadlock == Over \/ ENABLED (Main \/ CleanUp) \/ \E p \in Workers : ENABLED Worker(p)
(* batches read but not yet used, and used but not yet written *)
Bounded == /\ \A p \in Readers : Len(done[p]) - Len(used[p]) <= 3
           /\ \A p \in Writers : Len(used[1]) - Len(done[p]) <= Cap + 2
Termination == <>Over
=============================================================================
