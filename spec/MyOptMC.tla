------------------------------- MODULE MyOptMC -------------------------------
(* Every order of the criterion over up to MaxL sizes: the search ends, its  *)
(* result is a size within the interval, never worse than the largest one    *)
(* and than the smallest one, and a point it has evaluated.                  *)
EXTENDS MyOpt
CONSTANTS MaxL, Vals
VARIABLES rk, first, res
Init == /\ \E n \in 1..MaxL : rk \in [1..n -> 0..Vals]
        /\ first \in {1, IF Len(rk) < 3 THEN Len(rk) ELSE 3}
        /\ res = {}
Next == res = {} /\ res' = Opt(rk, first, Len(rk)) /\ UNCHANGED <<rk, first>>
Spec == Init /\ [][Next]_<<rk, first, res>>
Sound == res # {} => \A k \in res : /\ k \in first..Len(rk)
                                    /\ rk[k] <= rk[Len(rk)]
                                    /\ rk[k] <= rk[first]
Found == ENABLED Next \/ res # {}
(* with distinct values the outcome is determined *)
Unique == (res # {} /\ \A i, j \in DOMAIN rk : rk[i] = rk[j] => i = j) => Cardinality(res) = 1
==============================================================================
