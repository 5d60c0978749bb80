------------------------------ MODULE ToolTrace -------------------------------
(* Traces of mrsr, mrsr2, make_hdf5, normalize_hdf5, rbf_param, and of what  *)
(* HPELM reads and writes.                                                   *)
EXTENDS Mrsr, H5, Rbf, Batch, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Others(s, e, names) == IF \E n \in names \cap DOMAIN e.obs : ~e.obs[n].same THEN {"other file"} ELSE {}

StepMk(s, e) ==
    LET o == e.obs[e.name]
        oth == Others(s, e, DOMAIN s \ {e.name})
    IN IF MakeRefused(e)
       THEN [st |-> s, bad |-> oth \cup (IF e.exc = "" THEN {"accepted"} ELSE {}) \cup (IF e.name \in DOMAIN s /\ ~o.same THEN {"refused"} ELSE {})]
       ELSE IF e.exc # "" THEN [st |-> s, bad |-> {"raised " \o e.exc}]
       ELSE LET f == Made(e)
                b == MadeBad(f, o)
            IN [st |-> IF b = {} THEN Put(s, e.name, [f EXCEPT !.z = o.z]) ELSE s,
                bad |-> oth \cup b \cup (IF e.mut THEN {"mutated"} ELSE {})]

StepNrm(s, e) ==
    LET f == s[e.name]
        o == e.obs[e.name]
        oth == Others(s, e, DOMAIN s \ {e.name})
        mut == IF e.mut THEN {"mutated"} ELSE {}
        ref == e.given = 2 /\ (Len(e.mean) # f.cols \/ Len(e.std) # f.cols)
    IN IF ref
       THEN [st |-> s, bad |-> oth \cup mut \cup (IF e.exc = "" THEN {"accepted"} ELSE {}) \cup (IF ~o.same THEN {"refused"} ELSE {})]
       ELSE IF e.exc # "" THEN [st |-> s, bad |-> {"raised " \o e.exc}]
       ELSE IF e.given = 2
       THEN LET b == GivenBad(f, e, o) IN
            [st |-> IF b # {} THEN s ELSE Put(s, e.name, [f EXCEPT !.mark = "given", !.z = o.z, !.mean = e.ret.mean, !.std = e.ret.std]),
             bad |-> oth \cup mut \cup b
                     \cup (IF Len(e.ret.mean) # f.cols \/ Len(e.ret.std) # f.cols THEN {"stats"}
                           ELSE IF \E j \in 1..f.cols : ~Near(e.ret.mean[j], e.mean[j], 1) \/ ~Near(e.ret.std[j], e.std[j], e.sden) THEN {"stats"} ELSE {})]
       ELSE IF f.mark = "none"
       THEN LET b == AutoBad(f, o) \cup StatsBad(f, e.ret) IN
            [st |-> IF b # {} THEN s ELSE Put(s, e.name, [f EXCEPT !.mark = "auto", !.z = o.z, !.mean = e.ret.mean, !.std = e.ret.std]),
             bad |-> oth \cup mut \cup b]
       ELSE [st |-> s,
             bad |-> oth \cup mut \cup (IF ~o.same THEN {"twice"} ELSE {})
                     \cup (IF e.ret.mean # f.mean \/ e.ret.std # f.std THEN {"stats"} ELSE {})]

StepOf(s, e) ==
    IF e.exc = "HANG" THEN [st |-> s, bad |-> {"HANG"}] ELSE
    CASE e.op = "rank" ->
            [st |-> s, bad |-> IF e.exc # "" THEN {"raised " \o e.exc}
                               ELSE RankBad(e.X, e.T, e.norm, e.ks, e.ret.r, e.path) \cup (IF e.mut THEN {"mutated"} ELSE {})]
      [] e.op = "mk"   -> StepMk(s, e)
      [] e.op = "nrm"  -> StepNrm(s, e)
      [] e.op = "io"   -> [st |-> s, bad |-> IF e.exc # "" THEN {"raised " \o e.exc} ELSE IoBad(e, e.ret.io)]
      [] e.op = "mem"  -> [st |-> s, bad |-> IF e.exc # "" THEN {"raised " \o e.exc} ELSE MemBad(e.ret)]
      [] e.op = "rbf"  -> [st |-> s, bad |-> IF e.exc # "" THEN {"raised " \o e.exc} ELSE RbfBad(e, e.ret) \cup (IF e.mut THEN {"mutated"} ELSE {})]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = <<>>
        /\ bad = {}
Next == /\ l <= Len(Traces[t].events)
        /\ bad = {}
        /\ \E r \in {StepOf(st, Traces[t].events[l])} :
           /\ st' = r.st
           /\ bad' = r.bad
           /\ (r.bad # {}) => PrintT("BAD " \o ToJson(<<Traces[t].id, l, Traces[t].events[l].op, r.bad>>))
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
==============================================================================
