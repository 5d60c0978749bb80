--------------------------------- MODULE Val ----------------------------------
(* HPELM.validation_corr: models made of the first l neurons, solved from    *)
(* stored matrices, are evaluated on a validation set in exact arithmetic.   *)
EXTENDS Elm, Big

RECURSIVE ZDet(_)
ZDet(M) ==
    IF Len(M) = 0 THEN Z(1)
    ELSE LET n == Len(M)
             minor(j) == [i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
             term(j) == IF ZZero(M[1][j]) THEN Z(0)
                        ELSE LET x == ZMul(M[1][j], ZDet(TLCEval(minor(j)))) IN IF j % 2 = 1 THEN x ELSE ZNeg(x)
         IN ZSum([j \in 1..n |-> term(j)], n)

(* output weights of the first l neurons: B[j][c] / den; den is zero if unknown *)
Diagonal(HH, l) == /\ \A i, j \in 1..l : i # j => HH[i][j] = 0
                   /\ \A i \in 1..l : HH[i][i] = HH[1][1] /\ HH[i][i] > 0
NoFit == [den |-> Z(0), B |-> <<>>]
ValFit(HH, HT, l, nc) ==
    IF Diagonal(HH, l) THEN [den |-> Z(HH[1][1]), B |-> TLCEval([j \in 1..l |-> TLCEval([c \in 1..nc |-> Z(HT[j][c])])])]
    ELSE IF l > 4 THEN NoFit
    ELSE LET M == TLCEval([i \in 1..l |-> TLCEval([j \in 1..l |-> Z(HH[i][j])])])
             d == ZDet(M)
         IN IF ~ZPos(d) THEN NoFit
            ELSE [den |-> d, B |-> TLCEval([j \in 1..l |-> TLCEval([c \in 1..nc |->
                    ZDet(TLCEval([i \in 1..l |-> [k \in 1..l |-> IF k = j THEN Z(HT[i][c]) ELSE M[i][k]]]))])])]
(* predictions times 2 den *)
ValPred(H, f, l, nc) == TLCEval([r \in DOMAIN H |-> TLCEval([c \in 1..nc |-> ZSum([j \in 1..l |-> ZMul(Z(H[r][j]), f.B[j][c])], l)])])
ZTie(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j] /\ \A k \in DOMAIN s : ZLeq(s[k], s[i])
ZArgMax(s) == CHOOSE i \in DOMAIN s : /\ \A j \in DOMAIN s : ZLeq(s[j], s[i])
                                      /\ \A j \in DOMAIN s : j < i => ~ZLeq(s[i], s[j])
(* does rounding decide about some row? *)
Unclear(cls, P, f) ==
    CASE cls = "" -> FALSE
      [] cls = "ml" -> \E r \in DOMAIN P : \E c \in DOMAIN P[r] : P[r][c] = f.den
      [] OTHER -> \E r \in DOMAIN P : ZTie(P[r])
ValConf(cls, P, f, T2, nc) ==
    [i \in 1..nc |-> [j \in 1..nc |-> Cardinality({r \in DOMAIN P :
        IF cls = "ml" THEN T2[r][i] > 1 /\ ZPos(ZSub(P[r][j], f.den)) ELSE ArgMax(T2[r]) = i /\ ZArgMax(P[r]) = j})]]
(* v equals n / d up to k/90000 and rounding *)
ZNear(v, n, d, k) ==
    IF Big(v) THEN TRUE
    ELSE LET x == ZSub(ZMul(Z((v[1] * 300 + v[2]) * 300 + v[3]), d), ZMul(Z(90000), n))
         IN ZLeq(ZAbs(x), ZMul(Z(3 + k * (2 + Abs(v[1]))), d))
ValErrOk(m, P, f, T2, nc, v) ==
    LET N == Len(P) IN
    CASE m.cls = "" -> LET sq(r, c) == LET x == ZSub(ZMul(Z(T2[r][c]), f.den), P[r][c]) IN ZMul(x, x)
                       IN ZNear(v, ZSum([r \in 1..N |-> ZSum([c \in 1..nc |-> sq(r, c)], nc)], N), ZMul(Z(4 * N * nc), ZMul(f.den, f.den)), 2)
      [] m.cls = "ml" -> Near(v, Cardinality({x \in (1..N) \X (1..nc) : (T2[x[1]][x[2]] > 1) # ZPos(ZSub(P[x[1]][x[2]], f.den))}), N * nc)
      [] m.cls = "c" -> Near(v, Cardinality({r \in 1..N : ArgMax(T2[r]) # ZArgMax(P[r])}), N)
      [] m.cls = "wc" -> LET cnt(c) == Max2(ClassCount(T2, c), 1)
                             bad(c) == Cardinality({r \in 1..N : T2[r][c] = 2 /\ ZArgMax(P[r]) # c})
                         IN LinNear(<<SumF(m.wc.n)>> \o [c \in 1..nc |-> -m.wc.n[c]], <<v>> \o [c \in 1..nc |-> FracV(bad(c), cnt(c))], 0, 2, 0)

(* steps: [n] for a number of sizes, [v] for a vector *)
SizesBad(ret, steps, L0) ==
    LET Ls == ret.Ls IN
    IF Ls = <<>> \/ (\E i \in DOMAIN Ls : Ls[i] \notin 1..L0) \/ (\E i \in DOMAIN Ls : i > 1 /\ Ls[i] <= Ls[i - 1]) THEN {"sizes"}
    ELSE IF steps.vec THEN IF {Ls[i] : i \in DOMAIN Ls} # {steps.v[i] : i \in DOMAIN steps.v} THEN {"sizes"} ELSE {}
    ELSE IF Ls[Len(Ls)] # L0 \/ Ls[1] # Min2(3, L0) \/ Len(Ls) > steps.n THEN {"sizes"} ELSE {}
ValBad(m, HH, HT, known, X2, T2, ret, steps) ==
    LET nc == m.c
        k  == Len(ret.Ls)
        H  == TLCEval([r \in DOMAIN X2 |-> HRow2(m, X2[r])])
        form == (IF Len(ret.errs) # k THEN {"errs"} ELSE {})
                \cup (IF Len(ret.confs) # (IF m.cls = "" THEN 0 ELSE k) THEN {"confs"} ELSE {})
                \cup (IF \E i \in DOMAIN ret.confs : Len(ret.confs[i]) # nc \/ \E j \in DOMAIN ret.confs[i] : Len(ret.confs[i][j]) # nc THEN {"confs"} ELSE {})
        sum(C, i) == SumF([j \in 1..nc |-> C[i][j][1]])
        rows == IF m.cls \in {"c", "wc"} /\ \E i \in 1..k : \E c \in 1..nc : sum(ret.confs[i], c) # ClassCount(T2, c) THEN {"confs"} ELSE {}
        one(i) == LET f == TLCEval(ValFit(HH, HT, ret.Ls[i], nc)) IN
                  IF ZZero(f.den) THEN {}
                  ELSE LET P == ValPred(H, f, ret.Ls[i], nc) IN
                       IF Unclear(m.cls, P, f) THEN {}
                       ELSE (IF ~ValErrOk(m, P, f, T2, nc, ret.errs[i]) THEN {"errs"} ELSE {})
                            \cup (IF m.cls = "" THEN {}
                                  ELSE LET C == TLCEval(ValConf(m.cls, P, f, T2, nc)) IN
                                       IF \E a, b \in 1..nc : ret.confs[i][a][b] # <<C[a][b], 0, 0>> THEN {"confs"} ELSE {})
    IN IF SizesBad(ret, steps, L(m)) # {} THEN SizesBad(ret, steps, L(m))
       ELSE IF form # {} THEN form
       ELSE IF ~known \/ m.prec = 32 \/ ~Exact(m, X2) THEN rows
       ELSE rows \cup UNION {one(i) : i \in 1..k}
===============================================================================
