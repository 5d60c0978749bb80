-------------------------------- MODULE MssGen -------------------------------
(* Model structure selection on hidden layers of any kind (up to 4 neurons): *)
(* every candidate is solved by Cramer's rule in unbounded integers, so the  *)
(* criterion (validation error, PRESS with the leverage of every sample, mean*)
(* error over the folds) is known up to 1/FX.                                 *)
EXTENDS Mss, Val
MR == INSTANCE Mrsr

RECURSIVE Quot(_, _, _, _)
Quot(r, b, lo, hi) ==           \* greatest q in lo..hi with b q <= r; lo is one
    IF lo = hi THEN lo
    ELSE LET q == (lo + hi + 1) \div 2 IN
         IF BigLess(r, Trim(BMul1(b, q, 0))) THEN Quot(r, b, lo, q - 1) ELSE Quot(r, b, q, hi)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, b, i, r) ==          \* digits i..1 of a, remainder r so far
    IF i = 0 THEN <<>>
    ELSE LET x == TLCEval(Trim(<<a[i]>> \o r))
             q == Quot(x, b, 0, 9999)
         IN Append(DivFrom(a, b, i - 1, TLCEval(BigSub(x, Trim(BMul1(b, q, 0))))), q)
BigDiv(a, b) == IF a = <<>> THEN a ELSE Trim(DivFrom(a, b, Len(a), <<>>))

FX == <<0, 0, 1>>                \* 10^8
Fx(n, d) == BigDiv(BigMul(n.m, FX), d.m)                 \* FX n / d rounded down; n >= 0, d > 0

(* ------------------------------------------------- one candidate model *)
NotFit == [D |-> Z(0), adj |-> <<>>, B |-> <<>>]
(* neurons S (a sequence) trained on rows (H, T2): adjugate and output weights over D *)
FitG(m, H, T2, S) ==
    LET n  == Len(S)
        w  == TLCEval(Weights(m, T2))
        A  == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
                Z(SumF([r \in DOMAIN H |-> w[r] * H[r][S[i]] * H[r][S[j]]]) + IF i = j THEN Norm4(m) * WDen(m) ELSE 0)])])
        C  == TLCEval([i \in 1..n |-> TLCEval([c \in 1..m.c |-> Z(SumF([r \in DOMAIN H |-> w[r] * H[r][S[i]] * T2[r][c]]))])])
        D  == ZDet(A)
        sk(i, x) == IF x < i THEN x ELSE x + 1
        co(i, j) == LET x == ZDet(TLCEval([a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> A[sk(i, a)][sk(j, b)]]]))
                    IN IF (i + j) % 2 = 0 THEN x ELSE ZNeg(x)
        half == TLCEval([i \in 1..n |-> TLCEval([j \in i..n |-> co(i, j)])])
        adj  == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i <= j THEN half[i][j] ELSE half[j][i]])])
        tr(M) == ZSum([i \in 1..n |-> M[i][i]], n)
    IN IF ~ZPos(D) THEN NotFit
       ELSE IF ~ZLeq(ZMul(tr(A), tr(adj)), ZMul(Z(10000000), D)) THEN NotFit        \* badly conditioned
       ELSE [D |-> D, adj |-> adj, B |-> TLCEval([j \in 1..n |-> TLCEval([c \in 1..m.c |-> ZSum([i \in 1..n |-> ZMul(adj[j][i], C[i][c])], n)])])]

NearTie(s, D) == \E i, j \in DOMAIN s : i # j /\ \A k \in DOMAIN s :
    ZLeq(ZMul(Z(1000000), ZSub(s[k], s[i])), D) /\ ZLeq(ZMul(Z(1000000), ZSub(s[k], s[j])), D)
Unk == <<-1>>
(* error of the candidate on rows (H, T2) times FX, for PRESS divided by the leverage terms; Unk if rounding decides *)
ErrG(m, f, H, T2, S, press) ==
    LET n  == Len(S)
        N  == Len(H)
        nc == m.c
        D  == f.D
        hs(r) == [j \in 1..n |-> Z(H[r][S[j]])]
        P  == TLCEval([r \in 1..N |-> TLCEval([c \in 1..nc |-> ZSum([j \in 1..n |-> ZMul(Z(H[r][S[j]]), f.B[j][c])], n)])])     \* 2 D prediction
        q(r) == LET h == hs(r) IN ZSum([i \in 1..n |-> ZMul(h[i], ZSum([j \in 1..n |-> ZMul(h[j], f.adj[i][j])], n))], n)
        Rn == TLCEval([r \in 1..N |-> IF press THEN ZSub(D, ZMul(Z(WDen(m)), q(r))) ELSE D])              \* over D
        R2(r) == ZMul(Rn[r], Rn[r])
        D2 == ZMul(D, D)
        sum(s) == FoldFunction(LAMBDA x, y : BigAdd(x, y), <<>>, s)
        bad(r) == ZArgMax(P[r]) # ArgMax(T2[r])
    IN IF \E r \in 1..N : ZLeq(ZMul(Z(100), ZAbs(Rn[r])), D) THEN Unk
       ELSE CASE m.cls = "" ->
                 LET sq(r) == ZSum([c \in 1..nc |-> LET x == ZSub(ZMul(Z(T2[r][c]), D), P[r][c]) IN ZMul(x, x)], nc)
                 IN sum([r \in 1..N |-> Fx(sq(r), ZMul(Z(4 * N * nc), R2(r)))])
            [] m.cls = "ml" ->
                 IF \E r \in 1..N : \E c \in 1..nc : ZLeq(ZMul(Z(1000000), ZAbs(ZSub(P[r][c], D))), D) THEN Unk
                 ELSE sum([r \in 1..N |-> Fx(ZMul(D2, Z(Cardinality({c \in 1..nc : (T2[r][c] > 1) # ZPos(ZSub(P[r][c], D))}))), ZMul(Z(N * nc), R2(r)))])
            [] m.cls = "c" ->
                 IF \E r \in 1..N : NearTie(P[r], D) THEN Unk
                 ELSE sum([r \in 1..N |-> IF bad(r) THEN Fx(D2, ZMul(Z(N), R2(r))) ELSE <<>>])
            [] m.cls = "wc" ->
                 IF \E r \in 1..N : NearTie(P[r], D) THEN Unk
                 ELSE sum([r \in 1..N |-> IF bad(r) THEN Fx(ZMul(D2, Z(m.wc.n[ClassOf(T2[r])])),
                                                            ZMul(Z(SumF(m.wc.n) * ClassCount(T2, ClassOf(T2[r]))), R2(r))) ELSE <<>>])

(* ------------------------------------------------------------ criterion *)
(* ranks of the sizes 1..n with errors e[i] and that of all neurons, on N rows; <<>> if rounding decides *)
RanksG(n, e, all, N) ==
    IF all = Unk \/ \E i \in 1..n : e[i] = Unk THEN <<>>
    ELSE LET v == TLCEval([i \in 1..n |-> BigAdd(BigMul(BigI(100 * n), e[i]), BigMul(BigI(i), all))])
             tol == BigMul(BigI(1000 * n * N), BigI(10000))
             gap(a, b) == IF BigLess(a, b) THEN BigSub(b, a) ELSE BigSub(a, b)
             close == TLCEval([i \in 1..n |-> {j \in 1..n : ~BigLess(BigAdd(IF BigLess(v[i], v[j]) THEN v[j] ELSE v[i], tol), BigMul(gap(v[i], v[j]), BigI(10000)))}])
         IN IF \E i \in 1..n : \E j \in close[i] : close[j] # close[i] THEN <<>>
            ELSE TLCEval([i \in 1..n |-> Cardinality({j \in 1..n : j \notin close[i] /\ BigLess(v[j], v[i])})])

(* all rankings that optimal pruning may give on rows (H, T2) *)
RankingsG(m, H, T2, L0) ==
    LET G  == MR!Gram(H)
        XT == MR!Cross(H, T2)
        cr == MR!Corr1(XT)
    IN {p \in Perms(L0) : (\A j \in 1..L0 : cr[j] <= cr[p[1]]) /\ MR!Path(G, XT, p)}

SeqOf(S) == TLCEval(LET RECURSIVE go(_, _)
                go(i, n) == IF i > n THEN <<>> ELSE (IF i \in S THEN <<i>> ELSE <<>>) \o go(i + 1, n)
            IN go(1, IF S = {} THEN 0 ELSE MaxF([x \in S |-> x])))
SplitG(m, H, T2, k, i) ==
    [tr |-> TLCEval(Cat(H, k, TrainParts(k, i))), ttr |-> TLCEval(Cat(T2, k, TrainParts(k, i))),
     vl |-> Folds(H, k, Part(k, i, k - 2)), tvl |-> Folds(T2, k, Part(k, i, k - 2)),
     ts |-> Folds(H, k, Part(k, i, k - 1)), tts |-> Folds(T2, k, Part(k, i, k - 1))]
(* without norm, predictions for the training rows and leverages depend only on the space that neurons span *)
RECURSIVE Indep(_, _, _)
Indep(H, s, q) ==
    IF q = <<>> THEN s
    ELSE LET x == Append(s, Head(q))
             G == [i \in DOMAIN x |-> [j \in DOMAIN x |-> Z(SumF([r \in DOMAIN H |-> H[r][x[i]] * H[r][x[j]]]))]]
         IN Indep(H, IF ZPos(ZDet(TLCEval(G))) THEN x ELSE s, Tail(q))
OneG(m, H, T2, Hv, Tv, S, press) == LET s == TLCEval(IF press /\ Norm4(m) = 0 THEN Indep(H, <<>>, SeqOf(S)) ELSE SeqOf(S))
                                        f == TLCEval(FitG(m, H, T2, s))
                                    IN IF ZZero(f.D) THEN Unk ELSE TLCEval(ErrG(m, f, Hv, Tv, s, press))
SumUnk(es) == IF \E i \in DOMAIN es : es[i] = Unk THEN Unk ELSE FoldFunction(LAMBDA x, y : BigAdd(x, y), <<>>, es)

ChosenG(m, method, op, kmax, k, X2, T2, Xv, Tv, S) ==
    LET L0 == L(m)
        n  == IF op /\ kmax > 0 THEN Min2(kmax, L0) ELSE L0
        all == 1..L0
        H  == TLCEval([r \in DOMAIN X2 |-> HRow2(m, X2[r])])
        Hv == TLCEval([r \in DOMAIN Xv |-> HRow2(m, Xv[r])])
        press == method = "LOO"
        HE == IF press THEN H ELSE Hv
        TE == IF press THEN T2 ELSE Tv
        ranks == IF op THEN RankingsG(m, HE, TE, L0) ELSE Perms(L0)
        need == {all} \cup {Prefix(p, i) : p \in ranks, i \in 1..n}
        tab == TLCEval([Q \in need |-> OneG(m, H, T2, HE, TE, Q, press)])
        rk(p) == RanksG(n, [i \in 1..n |-> tab[Prefix(p, i)]], tab[all], Len(HE))
        \* folds
        D  == TLCEval([i \in 1..k |-> SplitG(m, H, T2, k, i)])
        rs == TLCEval([i \in 1..k |-> RankingsG(m, D[i].vl, D[i].tvl, L0)])
        the(i) == CHOOSE p \in rs[i] : TRUE
        err(i, Q) == OneG(m, D[i].tr, D[i].ttr, D[i].vl, D[i].tvl, Q, FALSE)
        e  == TLCEval([s \in 1..n |-> IF s < Min2(3, n) THEN <<0, 0, 0, 0, 1>> ELSE SumUnk([i \in 1..k |-> err(i, Prefix(the(i), s))])])
        rc == TLCEval(RanksG(n, e, SumUnk([i \in 1..k |-> err(i, all)]), Len(H)))
    IN IF method # "CV" THEN TLCEval(Decide(m, S, ranks, rk, 1, n))
       ELSE IF ~op THEN IF L0 <= 3 /\ S # all THEN "wrong" ELSE "any"
       ELSE IF n <= 3 THEN IF Cardinality(S) = n /\ \E p \in rs[k] : S = Prefix(p, n) THEN "ok" ELSE "wrong"
       ELSE IF \E i \in 1..k : Cardinality(rs[i]) # 1 THEN "any"
       ELSE IF rc = <<>> THEN "any"
       ELSE IF Cardinality(S) \in Opt(rc, 3, n) /\ S = Prefix(the(k), Cardinality(S)) THEN "ok" ELSE "wrong"

(* is the observed v the mean error of the chosen neurons on the test parts? *)
CvErrorOkG(m, k, X2, T2, S, v) ==
    LET H == TLCEval([r \in DOMAIN X2 |-> HRow2(m, X2[r])])
        D == TLCEval([i \in 1..k |-> SplitG(m, H, T2, k, i)])
        e == TLCEval(SumUnk([i \in 1..k |-> OneG(m, D[i].tr, D[i].ttr, D[i].ts, D[i].tts, S, FALSE)]))
    IN e = Unk \/ ZNear(v, ZZ(FALSE, e), ZZ(FALSE, BigMul(FX, BigI(k))), 2)
==============================================================================
