--------------------------------- MODULE Rbf ----------------------------------
(* Parameters of RBF neurons taken from data X/den (integer rows X).         *)
EXTENDS Num

Metric(kind) == CASE kind \in {"l1", "rbf_l1", "L-l1"} -> "l1" [] kind \in {"inf", "linf", "rbf_linf"} -> "inf" [] OTHER -> "sq"
Dist(me, x, y) == LET d == [i \in DOMAIN x |-> Abs(x[i] - y[i])] IN
                  CASE me = "l1" -> SumF(d) [] me = "inf" -> MaxF(d) [] OTHER -> SumF([i \in DOMAIN d |-> d[i] * d[i]])
Unit(me, den) == IF me = "sq" THEN den * den ELSE den
(* The widths lie within one standard deviation of the mean of a sample of distances between  *)
(* different rows.  If these are in [a, b], mean and standard deviation of a sample differ at *)
(* most by 0.2072 (b - a) from the interval.                                                  *)
Widths(X, me) == LET D == {Dist(me, X[i], X[j]) : <<i, j>> \in {p \in (DOMAIN X) \X (DOMAIN X) : p[1] # p[2]}}
                 IN <<CHOOSE d \in D : \A x \in D : d <= x, CHOOSE d \in D : \A x \in D : d >= x>>
InRange(v, a, b, u) == LET x == (v[1] * 300 + v[2]) * u IN
    /\ (x + u + 1) * 1000 >= (1000 * a - 208 * (b - a)) * 300
    /\ (x - 1) * 1000 <= (1000 * b + 208 * (b - a)) * 300
RowOf(c, x, den) == \A i \in DOMAIN c : Near(c[i], x[i], den)
RbfBad(e, ret) ==
    LET me == Metric(e.kind)
        u  == Unit(me, e.den)
        w  == Widths(e.X, me)
    IN (IF Len(ret.W) # e.k \/ ret.d # e.cols \/ Len(ret.B) # e.k \/ ret.nb # 1 THEN {"form"}
        ELSE (IF \E j \in 1..e.k : ~\E r \in DOMAIN e.X : RowOf(ret.W[j], e.X[r], e.den) THEN {"centroid"} ELSE {})
             \cup (IF ~ret.pos THEN {"positive"} ELSE {})
             \cup (IF Len(e.X) = 1 THEN {}
                   ELSE IF w[2] = 0 \/ (w[1] = 0 /\ \A j \in 1..e.k : NearK(ret.B[j], 1, 1, 0)) THEN {}   \* sampled rows are the same
                   ELSE IF w[1] = w[2] THEN IF \E j \in 1..e.k : ~NearK(ret.B[j], w[1], u, 0) THEN {"width"} ELSE {}
                   ELSE IF \E j \in 1..e.k : ~InRange(ret.B[j], w[1], w[2], u) THEN {"width"} ELSE {})
             \cup (IF e.func = "" THEN {}
                   ELSE IF Len(ret.H) # Len(e.X) \/ ~ret.h01 THEN {"usable"}
                   ELSE IF \E r \in DOMAIN e.X : \E j \in 1..e.k : RowOf(ret.W[j], e.X[r], e.den) /\ ~Near(ret.H[r][j], 1, 1) THEN {"usable"} ELSE {}))
===============================================================================
