----------------------------- MODULE AsyncTrace -----------------------------
(* Flow of rows between the processes of asynchronous calls, as recorded     *)
(* under a chosen schedule: they end without deadlock, leave no process      *)
(* behind, and hold only a few batches in flight.  (The results of the calls *)
(* are validated by ElmTrace.)                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

Few == 4        \* batches
Emp == [batch |-> 1, read |-> 0, got |-> 0, sent |-> 0, wrote |-> 0, readers |-> {}]

InFlight(tr, s) ==
    (IF tr.xflow /\ s.read - s.got > Few * s.batch * Cardinality(s.readers) THEN {"read batches in flight"} ELSE {}) \cup
    (IF tr.wflow /\ s.sent - s.wrote > Few * s.batch THEN {"batches to write in flight"} ELSE {})

StepOf(tr, s, e) ==
    LET s2 == CASE e.op = "begin" -> [Emp EXCEPT !.batch = e.batch]
                [] e.op = "read" /\ e.who # "M" -> [s EXCEPT !.read = @ + e.rows, !.readers = @ \cup {e.who}]
                [] e.op = "get" /\ e.who = "M" -> [s EXCEPT !.got = @ + e.rows]
                [] e.op = "put" /\ e.who = "M" -> [s EXCEPT !.sent = @ + e.rows]
                [] e.op = "write" /\ e.who # "M" -> [s EXCEPT !.wrote = @ + e.rows]
                [] OTHER -> s
    IN [st |-> s2,
        bad |-> InFlight(tr, s2)
                \cup (IF e.op = "deadlock" THEN {"deadlock"} ELSE {})
                \cup (IF e.op = "end" /\ e.left > 0 THEN {"process left behind"} ELSE {})]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = Emp
        /\ bad = {}
Next == /\ l <= Len(Traces[t].events)
        /\ bad = {}
        /\ \E r \in {StepOf(Traces[t], st, Traces[t].events[l])} :      \* evaluated once
           /\ st' = r.st
           /\ bad' = r.bad
           /\ (r.bad # {}) => PrintT("BAD " \o ToJson(<<Traces[t].id, l, Traces[t].events[l].op, r.bad>>))
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
