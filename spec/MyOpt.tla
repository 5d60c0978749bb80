-------------------------------- MODULE MyOpt --------------------------------
(* Interval search for the number of neurons with the smallest criterion.    *)
(* rk is the criterion of every size as a dense integer rank (only the order *)
(* matters); equal values may be told apart either way by rounding, so every *)
(* operator gives the set of possible outcomes.                              *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Search(_, _, _, _, _, _)
Search(rk, A, B, C, D, E) ==
    LET P  == {A, B, C, D, E}
        m  == CHOOSE x \in {rk[i] : i \in P} : \A i \in P : x <= rk[i]
        T  == {i \in P : rk[i] = m}                    \* attain the minimum, as far as exact values tell
        fin(a, c, e) == LET l == e - a
                            b == a + (l \div 4)
                            d == a + ((3 * l) \div 4)
                        IN IF l > 2 THEN Search(rk, a, b, c, d, e)
                           ELSE {i \in {a, b, c, d, e} : rk[i] = m}
    IN  (IF T \cap {A, B} # {} THEN fin(A, B, C) ELSE {}) \cup
        (IF T \cap {D, E} # {} THEN fin(C, D, E) ELSE {}) \cup
        (IF C \in T THEN fin(B, C, D) ELSE {})

Opt(rk, first, last) ==
    LET l == last - first
    IN Search(rk, first, first + (l \div 4), first + (l \div 2), first + ((3 * l) \div 4), last)
==============================================================================
