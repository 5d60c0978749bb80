--------------------------------- MODULE Mss ---------------------------------
(* Model structure selection of ELM.train: 'V', 'CV', 'LOO', with or without *)
(* 'OP' and kmax.                                                            *)
(*                                                                           *)
(* For any neurons: the result is a selection of the former neurons that is  *)
(* trained on the whole training set (MssModel).                             *)
(* For orthogonal hidden layers (all neuron values +1 or -1, weighted sums of*)
(* products zero) every candidate model has an exact rational solution, so   *)
(* the criterion of every candidate is known exactly and the outcome of the  *)
(* interval search is determined up to ties (Chosen).                        *)
EXTENDS Elm, Big, MyOpt

MssMethod(flags) == IF "V" \in flags THEN "V" ELSE IF "CV" \in flags THEN "CV" ELSE IF "LOO" \in flags THEN "LOO" ELSE ""

(* ---------------------------------------------- ridge on orthogonal rows *)
Signs(H) == \A r \in DOMAIN H : \A j \in DOMAIN H[r] : H[r][j] \in {2, -2}
Weights(m, T2) == [r \in DOMAIN T2 |-> IF m.cls = "wc" THEN m.wc.n[ClassOf(T2[r])] ELSE 1]
Ortho(H, w) == Signs(H) /\ (H # <<>>) /\ \A i, j \in DOMAIN H[1] : i < j => SumF([r \in DOMAIN H |-> w[r] * H[r][i] * H[r][j]]) = 0
WDen(m) == IF m.cls = "wc" THEN m.wc.d ELSE 1
Ones(H) == [r \in DOMAIN H |-> 1]
(* output weights of neuron j: a[j][c] / (2 q) *)
Fit(m, H, T2) ==
    LET w == TLCEval(Weights(m, T2)) IN
    TLCEval([q |-> SumF(w) + (Norm4(m) \div 4) * WDen(m),
     a |-> TLCEval([j \in DOMAIN H[1] |-> TLCEval([c \in 1..m.c |-> SumF([r \in DOMAIN H |-> w[r] * (H[r][j] \div 2) * T2[r][c]])])])])

(* 2 q * prediction for one row of H, neurons S *)
PredN(f, h, S, c) == SumF([j \in S |-> (h[j] \div 2) * f.a[j][c]])
TieMax(s) == \E i, j \in DOMAIN s : i # j /\ s[i] = s[j] /\ \A k \in DOMAIN s : s[k] <= s[i]
(* numerator of the error of neurons S on rows (H, T2); -1 if rounding decides.      *)
(* denominators, the same for all S: 4 q^2 rows c | rows | rows c | WLcm * sum of weights *)
WLcm(m, T2) == FoldFunction(LAMBDA x, y : Lcm(x, y), 1, [c \in 1..m.c |-> Max2(ClassCount(T2, c), 1)])
ErrN(m, f, H, T2, S) ==
    LET P == TLCEval([r \in DOMAIN H |-> TLCEval([c \in 1..m.c |-> PredN(f, H[r], S, c)])])
        p(r) == P[r] IN
    CASE m.cls = "" -> SumF([r \in DOMAIN H |-> LET y == p(r) IN SumF([c \in 1..m.c |-> (T2[r][c] * f.q - y[c]) * (T2[r][c] * f.q - y[c])])])
      [] m.cls = "ml" -> IF \E r \in DOMAIN H : \E c \in 1..m.c : p(r)[c] = f.q THEN -1
                         ELSE SumF([r \in DOMAIN H |-> Cardinality({c \in 1..m.c : (p(r)[c] > f.q) # (T2[r][c] > 1)})])
      [] m.cls = "c" -> IF \E r \in DOMAIN H : TieMax(p(r)) THEN -1
                        ELSE Cardinality({r \in DOMAIN H : ArgMax(p(r)) # ArgMax(T2[r])})
      [] m.cls = "wc" -> IF \E r \in DOMAIN H : TieMax(p(r)) THEN -1
                         ELSE SumF([c \in 1..m.c |-> m.wc.n[c] * (WLcm(m, T2) \div Max2(ClassCount(T2, c), 1)) *
                                    Cardinality({r \in DOMAIN H : T2[r][c] = 2 /\ ArgMax(p(r)) # c})])
ErrDen(m, f, N, T2) == CASE m.cls = "" -> 4 * f.q * f.q * N * m.c
                         [] m.cls = "ml" -> N * m.c
                         [] m.cls = "c" -> N
                         [] m.cls = "wc" -> WLcm(m, T2) * SumF(m.wc.n)

(* --------------------------------------------------------------- criteria *)
(* criterion of sizes 1..n given the error numerators of the prefixes, that of all neurons (all), *)
(* as dense ranks: 100 n e[i] + i e[all] *)
RankOf(n, less(_, _)) == TLCEval([i \in 1..n |-> Cardinality({j \in 1..n : less(j, i)})])
PenRank(n, e, all) ==
    LET v == TLCEval([i \in 1..n |-> BigAdd(BigMul(BigI(100 * n), BigI(e[i])), BigMul(BigI(i), BigI(all)))])
    IN RankOf(n, LAMBDA i, j : BigLess(v[i], v[j]))
(* leave-one-out: errors are divided by (1 - i wd / q)^2, the same for all rows *)
LooRank(n, L0, f, wd, e, all) ==
    LET sq(i) == BigMul(BigI(f.q - i * wd), BigI(f.q - i * wd))
        s == TLCEval([i \in 1..n |-> sq(i)])
        s0 == sq(L0)
        v == TLCEval([i \in 1..n |-> BigAdd(BigMul(BigMul(BigI(100 * n), BigI(e[i])), s0), BigMul(BigMul(BigI(i), BigI(all)), s[i]))])
    IN RankOf(n, LAMBDA i, j : BigLess(BigMul(v[i], s[j]), BigMul(v[j], s[i])))

(* ---------------------------------------------------------------- rankings *)
(* importance of every neuron for optimal pruning on rows (H, T2) *)
Corr(m, H, T2) == [j \in DOMAIN H[1] |->
    LET a == [c \in 1..m.c |-> SumF([r \in DOMAIN H |-> (H[r][j] \div 2) * T2[r][c]])]
    IN IF m.c < 10 THEN SumF([c \in 1..m.c |-> Abs(a[c])]) ELSE SumF([c \in 1..m.c |-> a[c] * a[c]])]
Follows(p, cr) == \A i \in DOMAIN p : i > 1 => cr[p[i - 1]] >= cr[p[i]]
Strict(cr) == \A i, j \in DOMAIN cr : i # j => cr[i] # cr[j]
TheOrder(cr) == [i \in DOMAIN cr |-> CHOOSE j \in DOMAIN cr : Cardinality({k \in DOMAIN cr : cr[k] > cr[j]}) = i - 1]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Prefix(p, i) == {p[k] : k \in 1..i}

Folds(S, k, i) ==      \* i-th of k interleaved parts
    TLCEval([r \in 1..((Len(S) - i) \div k + 1) |-> S[i + (r - 1) * k]])
RECURSIVE Cat(_, _, _)
Cat(S, k, is) == IF is = <<>> THEN <<>> ELSE Folds(S, k, Head(is)) \o Cat(S, k, Tail(is))
Part(k, i, j) == ((i - 1 + j) % k) + 1       \* j-th part of split i
TrainParts(k, i) == [j \in 1..(k - 2) |-> Part(k, i, j - 1)]

(* ----------------------------------------------------------- what is chosen *)
(* m: model with its configuration and class weights and all former neurons; S: chosen former neurons *)
(* a, kmax (0: none) and k as in the call.  "ok", "wrong", or "any" if the exact values do not tell.     *)
Decide(m, S, ranks, rk(_), first, n) ==
    IF ranks = {} THEN "any"
    ELSE IF \E p \in ranks : rk(p) = <<>> THEN "any"
    ELSE IF \E p \in ranks : Cardinality(S) <= n /\ Cardinality(S) \in Opt(rk(p), first, n) /\ S = Prefix(p, Cardinality(S)) THEN "ok"
    ELSE "wrong"

OPRanks(m, L0, op, cr) ==
    IF ~op THEN IF L0 <= 5 THEN Perms(L0) ELSE {}
    ELSE IF Strict(cr) THEN {TheOrder(cr)}
    ELSE IF L0 <= 5 THEN {p \in Perms(L0) : Follows(p, cr)} ELSE {}

Chosen(m, method, op, kmax, k, X2, T2, Xv, Tv, S) ==
    LET L0 == L(m)
        n  == IF op /\ kmax > 0 THEN Min2(kmax, L0) ELSE L0
        H  == TLCEval([r \in DOMAIN X2 |-> HRow2(m, X2[r])])
        all == 1..L0
    IN
    CASE method = "V" ->
          LET Hv == TLCEval([r \in DOMAIN Xv |-> HRow2(m, Xv[r])])
              f  == TLCEval(Fit(m, H, T2))
              cr == TLCEval(Corr(m, Hv, Tv))
              tab == TLCEval([Q \in SUBSET all |-> ErrN(m, f, Hv, Tv, Q)])
              err(Q) == IF L0 <= 5 THEN tab[Q] ELSE ErrN(m, f, Hv, Tv, Q)
              rk(p) == LET e == TLCEval([i \in 1..n |-> err(Prefix(p, i))]) IN
                       IF \E i \in 1..n : e[i] < 0 THEN <<>> ELSE PenRank(n, e, err(all))
          IN IF ~Ortho(H, Weights(m, T2)) \/ (op /\ ~Ortho(Hv, Ones(Hv))) \/ ~Signs(Hv) THEN "any"
             ELSE IF err(all) < 0 THEN "any"
             ELSE Decide(m, S, OPRanks(m, L0, op, cr), rk, 1, n)
      [] method = "LOO" ->
          LET f  == TLCEval(Fit(m, H, T2))
              cr == TLCEval(Corr(m, H, T2))
              tab == TLCEval([Q \in SUBSET all |-> ErrN(m, f, H, T2, Q)])
              err(Q) == IF L0 <= 5 THEN tab[Q] ELSE ErrN(m, f, H, T2, Q)
              rk(p) == LET e == TLCEval([i \in 1..n |-> err(Prefix(p, i))]) IN
                       IF \E i \in 1..n : e[i] < 0 THEN <<>> ELSE LooRank(n, L0, f, WDen(m), e, err(all))
          IN IF ~Ortho(H, Weights(m, T2)) \/ (op /\ ~Ortho(H, Ones(H))) \/ f.q <= L0 * WDen(m) THEN "any"
             ELSE IF err(all) < 0 THEN "any"
             ELSE Decide(m, S, OPRanks(m, L0, op, cr), rk, 1, n)
      [] method = "CV" ->
          LET HTR == TLCEval([i \in 1..k |-> Cat(H, k, TrainParts(k, i))])
              ht(i)  == HTR[i]
              TTR == TLCEval([i \in 1..k |-> Cat(T2, k, TrainParts(k, i))])
              tt(i)  == TTR[i]
              HVL == TLCEval([i \in 1..k |-> Folds(H, k, Part(k, i, k - 2))])
              hv(i)  == HVL[i]
              TVL == TLCEval([i \in 1..k |-> Folds(T2, k, Part(k, i, k - 2))])
              tv(i)  == TVL[i]
              F  == TLCEval([i \in 1..k |-> Fit(m, ht(i), tt(i))])
              cr == TLCEval([i \in 1..k |-> TLCEval(Corr(m, hv(i), tv(i)))])
              tab == TLCEval([i \in 1..k |-> TLCEval([Q \in SUBSET all |-> ErrN(m, F[i], hv(i), tv(i), Q)])])
              err(i, Q) == IF L0 <= 5 THEN tab[i][Q] ELSE ErrN(m, F[i], hv(i), tv(i), Q)
              sized == L0 <= 5 /\ \A i \in 1..k : \A Q \in SUBSET all : tab[i][Q] = tab[i][1..Cardinality(Q)]
              same == op /\ \A i \in 1..k : TheOrder(cr[i]) = TheOrder(cr[1])
              strict == op /\ \A i \in 1..k : Strict(cr[i])
              pre(i, s) == IF strict THEN Prefix(TheOrder(cr[i]), s) ELSE 1..s
              e  == TLCEval([s \in 1..n |-> TLCEval([i \in 1..k |-> err(i, pre(i, s))])])
              ea == TLCEval([i \in 1..k |-> err(i, all)])
              ok == /\ (\A i \in 1..k : ea[i] >= 0) /\ (\A s \in 1..n : \A i \in 1..k : e[s][i] >= 0)
                    \* one denominator for all splits
                    /\ \A i \in 1..k : ErrDen(m, F[i], Len(hv(i)), tv(i)) = ErrDen(m, F[1], Len(hv(1)), tv(1))
              rk == TLCEval(PenRank(n, [s \in 1..n |-> SumF(e[s])], SumF(ea)))
          IN IF Len(X2) < k \/ (\E i \in 1..k : ~Ortho(ht(i), Weights(m, tt(i))) \/ (op /\ ~Ortho(hv(i), Ones(hv(i))))) \/ ~(sized \/ strict) THEN "any"
             ELSE IF ~ok THEN "any"
             ELSE IF Cardinality(S) <= n /\ Cardinality(S) \in Opt(rk, Min2(3, n), n) /\ ((strict /\ same) => S = Prefix(TheOrder(cr[1]), Cardinality(S))) THEN "ok"
             ELSE "wrong"

(* mean error of the chosen neurons on the test parts: <<numerator, denominator>>, <<>> if not determined *)
CvError(m, k, X2, T2, S) ==
    LET H == TLCEval([r \in DOMAIN X2 |-> HRow2(m, X2[r])])
        HTR == TLCEval([i \in 1..k |-> Cat(H, k, TrainParts(k, i))])
              ht(i)  == HTR[i]
        TTR == TLCEval([i \in 1..k |-> Cat(T2, k, TrainParts(k, i))])
              tt(i)  == TTR[i]
        HS == TLCEval([i \in 1..k |-> Folds(H, k, Part(k, i, k - 1))])
        hs(i)  == HS[i]
        TS == TLCEval([i \in 1..k |-> Folds(T2, k, Part(k, i, k - 1))])
        ts(i)  == TS[i]
        F  == TLCEval([i \in 1..k |-> Fit(m, ht(i), tt(i))])
        D  == TLCEval([i \in 1..k |-> ErrDen(m, F[i], Len(hs(i)), ts(i))])
        e  == TLCEval([i \in 1..k |-> ErrN(m, F[i], hs(i), ts(i), S)])
    IN IF Len(X2) < k \/ (\E i \in 1..k : ~Ortho(ht(i), Weights(m, tt(i)))) THEN <<>>
       ELSE IF (\E i \in 1..k : D[i] # D[1]) \/ (\E i \in 1..k : e[i] < 0) THEN <<>>
       ELSE <<SumF(e), D[1] * k>>
==============================================================================
