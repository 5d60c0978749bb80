----------------------------- MODULE AccumTrace -----------------------------
(* Validation of recorded runs of real processes that accumulate into shared *)
(* files (schedules, kills and failures chosen by the controller).           *)
EXTENDS Elm, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

Model(tr) == AddNeurons(NewModel([d |-> tr.d, c |-> tr.c, prec |-> tr.prec, batch |-> 1, norm |-> tr.norm, cls |-> tr.cls,
                               w |-> IF tr.w = <<>> THEN NoW ELSE [n |-> tr.w[1], d |-> tr.w[2]]]),
                        "lin", [j \in DOMAIN tr.W |-> [w |-> tr.W[j], b |-> tr.b[j]]], FALSE)
Contribution(tr, c) == Accum(Model(tr), c.X, c.T).acc
(* numerators (over 4 and the denominator of the class weights) of what the files have to contain: the norm once and every contribution of S once *)
Total(tr, S, pick(_), n, k) ==
    [i \in 1..n |-> [j \in 1..k |-> SumF([x \in S |-> pick(x)[i][j]])]]
CallOf(tr, x) == IF x[1] = -1 THEN tr.pre[x[2]] ELSE IF x[1] = 0 THEN tr.probe ELSE tr.calls[x[1]][x[2]]
PreSet(tr) == {<<-1, i>> : i \in DOMAIN tr.pre}

Holds(tr, M, S, which) ==
    LET m == Model(tr)  n == L(m)
        C == [x \in S |-> Contribution(tr, CallOf(tr, x))]
        k == IF which = "HH" THEN n ELSE tr.c
        E == Total(tr, S, LAMBDA x : IF which = "HH" THEN C[x].HH ELSE C[x].HT, n, k)
    IN  /\ Len(M) = n
        /\ \A i \in 1..n : Len(M[i]) = k
        /\ \A i \in 1..n : \A j \in 1..k :
              NearK(M[i][j], E[i][j] + IF which = "HH" /\ i = j THEN m.wc.d * Norm4(m) ELSE 0, 4 * m.wc.d, IF tr.prec = 32 THEN 4 ELSE 0)

FilesBad(tr, s, e) ==
    LET sure == s.done \cup PreSet(tr)
        hh == {S \in SUBSET s.cut : Holds(tr, e.HH, sure \cup S, "HH")}
        ht == {S \in SUBSET s.cut : Holds(tr, e.HT, sure \cup S, "HT")}
    IN IF e.err # "" THEN IF s.done = {} /\ s.cut # {} /\ tr.pre = <<>> THEN {} ELSE {"unreadable"}
       ELSE IF hh = {} THEN {"HH"} ELSE IF ht = {} THEN {"HT"}
       ELSE IF hh \cap ht # {} THEN {}
       ELSE IF \E A \in hh, B \in ht : B \subseteq A THEN {"torn, in HH only; " \o e.where} ELSE {"torn, in HT only; " \o e.where}

StepOf(tr, s, e) ==
    CASE e.op = "end" ->
            IF e.exc = "" THEN [st |-> [s EXCEPT !.done = @ \cup {<<e.p, e.call>>}, !.next = [@ EXCEPT ![e.p] = e.call + 1]], bad |-> {}]
            ELSE IF e.failed THEN [st |-> [s EXCEPT !.cut = @ \cup {<<e.p, e.call>>}], bad |-> {}]
            ELSE [st |-> s, bad |-> {"raised " \o e.exc}]
      [] e.op = "died" ->
            IF e.killed THEN [st |-> IF s.next[e.p] > Len(tr.calls[e.p]) THEN s ELSE [s EXCEPT !.cut = @ \cup {<<e.p, s.next[e.p]>>}], bad |-> {}]
            ELSE [st |-> s, bad |-> {"DIED"}]
      [] e.op = "hang" -> [st |-> s, bad |-> {"deadlock"}]
      [] e.op = "probe" -> [st |-> [s EXCEPT !.done = @ \cup {<<0, 1>>}], bad |-> IF e.exc # "" THEN {"blocked afterwards"} ELSE {}]
      [] e.op = "files" -> [st |-> s, bad |-> FilesBad(tr, s, e)]
      [] OTHER -> [st |-> s, bad |-> {"DIED"}]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = [done |-> {}, cut |-> {}, next |-> [p \in DOMAIN Traces[t].calls |-> 1]]
        /\ bad = {}
Next == /\ l <= Len(Traces[t].events)
        /\ bad = {}
        /\ \E r \in {StepOf(Traces[t], st, Traces[t].events[l])} :      \* evaluated once
           /\ st' = r.st
           /\ bad' = r.bad
           /\ (r.bad # {}) => PrintT("BAD " \o ToJson(<<Traces[t].id, l, Traces[t].events[l].op, r.bad>>))
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
