--------------------------------- MODULE H5MC ---------------------------------
(* Histories of make_hdf5 and normalize_hdf5 calls on files, small enough to *)
(* enumerate all.  A file is the sequence of transformations applied to the  *)
(* data it was made of ("auto": to zero mean and unit deviation of the       *)
(* made data, "given": explicit parameters), the mark, and the origin of the *)
(* statistics that a call without parameters returns.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, MaxLen
VARIABLES file, hist, ret
vars == <<file, hist, ret>>

None == [done |-> <<>>, mark |-> "absent", stat |-> ""]
New  == [done |-> <<>>, mark |-> "none", stat |-> ""]

Init == /\ file = [n \in Names |-> None]
        /\ hist = <<>>
        /\ ret = ""
Call(op, n, f, r) == /\ file' = [file EXCEPT ![n] = f]
                     /\ ret' = r
                     /\ hist' = Append(hist, <<op, n>>)
                     /\ Len(hist') = MaxLen => PrintT("WORD " \o ToJson(hist'))
Mk(n)   == Call("mk", n, New, "")
Auto(n) == LET f == file[n] IN
           /\ f.mark # "absent"
           /\ IF f.mark = "none" THEN Call("auto", n, [done |-> Append(f.done, "auto"), mark |-> "auto", stat |-> "data"], "data")
              ELSE Call("auto", n, f, f.stat)
One(n)  == LET f == file[n] IN           \* one of the two parameters only counts as none
           /\ f.mark # "absent"
           /\ IF f.mark = "none" THEN Call("one", n, [done |-> Append(f.done, "auto"), mark |-> "auto", stat |-> "data"], "data")
              ELSE Call("one", n, f, f.stat)
Given(n) == LET f == file[n] IN
           /\ f.mark # "absent"
           /\ Call("given", n, [done |-> Append(f.done, "given"), mark |-> "given", stat |-> "given"], "given")
Bad(n)  == /\ file[n].mark # "absent"
           /\ Call("bad", n, file[n], "refused")
Next == /\ Len(hist) < MaxLen
        /\ \E n \in Names : Mk(n) \/ Auto(n) \/ One(n) \/ Given(n) \/ Bad(n)
Spec == Init /\ [][Next]_vars

(* the data are normalized by their own statistics at most once, and never after other parameters *)
Once == \A n \in Names : \A i \in DOMAIN file[n].done : file[n].done[i] = "auto" => i = 1
(* a file without a mark holds what was made *)
Marked == \A n \in Names : file[n].mark \in {"absent", "none"} <=> file[n].done = <<>>
(* the second of two calls without parameters returns the same and changes nothing *)
Idle == [][(hist' # hist /\ hist # <<>> /\ hist'[Len(hist')][1] = "auto" /\ hist[Len(hist)] = hist'[Len(hist')])
           => file' = file /\ ret' = ret]_vars
(* other files stay as they are *)
Local == [][\A n \in Names : hist' # hist /\ hist'[Len(hist')][2] # n => file'[n] = file[n]]_vars
===============================================================================
