--------------------------------- MODULE Mrsr --------------------------------
(* Multiresponse sparse regression (a least-angle selection of features) in  *)
(* exact rational arithmetic, on integer features X (rows of p features) and *)
(* integer targets T (rows of c targets).                                    *)
(*                                                                           *)
(* The estimation X.W starts at zero.  The first feature has the largest     *)
(* correlation with the targets (sum over the targets of its magnitude).     *)
(* The estimation moves straight towards the least-squares estimation of the *)
(* chosen features, whose correlations with the residual decrease all alike, *)
(* until another feature has the same correlation: this is the next one.     *)
EXTENDS Num, Big

Gram(X) == TLCEval([i \in DOMAIN X[1] |-> TLCEval([j \in DOMAIN X[1] |-> SumF([r \in DOMAIN X |-> X[r][i] * X[r][j]])])])
Cross(X, T) == TLCEval([i \in DOMAIN X[1] |-> TLCEval([c \in DOMAIN T[1] |-> SumF([r \in DOMAIN X |-> X[r][i] * T[r][c]])])])
Corr1(XT) == TLCEval([j \in DOMAIN XT |-> SumF([c \in DOMAIN XT[j] |-> Abs(XT[j][c])])])
Corr2(XT) == TLCEval([j \in DOMAIN XT |-> SumF([c \in DOMAIN XT[j] |-> XT[j][c] * XT[j][c]])])
IsOrtho(G) == \A i, j \in DOMAIN G : i # j => G[i][j] = 0

RECURSIVE Det(_)
Det(M) ==       \* of a square matrix, as a sequence of rows
    IF Len(M) = 0 THEN 1
    ELSE LET minor(j) == [i \in 1..(Len(M) - 1) |-> [k \in 1..(Len(M) - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
         IN SumF([j \in 1..Len(M) |-> IF M[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(minor(j))])

(* least-squares weights of the chosen features A: numerators [p][c] over det *)
LS(G, XT, A) ==
    LET n   == Len(A)
        M   == TLCEval([i \in 1..n |-> [j \in 1..n |-> G[A[i]][A[j]]]])
        det == Det(M)
        num(i, c) == Det([k \in 1..n |-> [j \in 1..n |-> IF j = i THEN XT[A[k]][c] ELSE M[k][j]]])
    IN [det |-> det,
        B |-> TLCEval([f \in DOMAIN XT |-> TLCEval([c \in DOMAIN XT[1] |->
               IF \E i \in 1..n : A[i] = f THEN num(CHOOSE i \in 1..n : A[i] = f, c) ELSE 0])])]

Sgn(c) == [1..c -> {1, -1}]

(* n / d, the part of the way after which feature j has the correlation of feature h *)
(* st: weights W (numerators, over den)                                              *)
Step(G, XT, st, ls, h, rest) ==
    LET p == Len(XT)
        c == Len(XT[1])
        a(j) == TLCEval([t \in 1..c |-> ZSub(ZMul(Z(XT[j][t]), st.den), ZSum([k \in 1..p |-> ZMul(Z(G[j][k]), st.W[k][t])], p))])
        dir  == TLCEval([k \in 1..p |-> TLCEval([t \in 1..c |-> ZSub(ZMul(Z(ls.B[k][t]), st.den), ZMul(Z(ls.det), st.W[k][t]))])])
        b(j) == TLCEval([t \in 1..c |-> ZSum([k \in 1..p |-> ZMul(Z(G[j][k]), dir[k][t])], p)])
        C    == ZMul(Z(ls.det), LET x == a(h) IN ZSum([t \in 1..c |-> ZAbs(x[t])], c))
        line(v, s) == ZSum([t \in 1..c |-> IF s[t] = 1 THEN v[t] ELSE ZNeg(v[t])], c)
        fr(j) == LET aj == TLCEval([t \in 1..c |-> ZMul(Z(ls.det), a(j)[t])])
                     bj == b(j)
                 IN {[n |-> ZSub(C, line(aj, s)), d |-> ZSub(C, line(bj, s))] : s \in Sgn(c)}
        pos(j) == {x \in fr(j) : ZPos(x.d)}
    IN [C |-> C,
        tied |-> \E j \in rest : \E x \in fr(j) : ZZero(x.n) /\ ~ZPos(x.d),     \* any of them may come next
        g |-> TLCEval([j \in rest |-> IF pos(j) = {} THEN [n |-> Z(1), d |-> Z(1)]
                                      ELSE CHOOSE x \in pos(j) : \A y \in pos(j) : ZLeq(ZMul(x.n, y.d), ZMul(y.n, x.d))])]

(* x <= y + 1/10000 *)
AboutLeq(x, y) == ZLeq(ZMul(Z(10000), ZMul(x.n, y.d)), ZAdd(ZMul(Z(10000), ZMul(y.n, x.d)), ZMul(x.d, y.d)))

Move(st, ls, g) ==
    [den |-> ZMul(g.d, ZMul(st.den, Z(ls.det))),
     W |-> TLCEval([k \in DOMAIN st.W |-> TLCEval([t \in DOMAIN st.W[k] |->
            ZAdd(ZMul(ZSub(g.d, g.n), ZMul(st.W[k][t], Z(ls.det))), ZMul(g.n, ZMul(Z(ls.B[k][t]), st.den)))])])]

(* r[1..i] are chosen, the estimation is st: is r a behaviour from here on? *)
RECURSIVE PathFrom(_, _, _, _, _)
PathFrom(G, XT, r, i, st) ==
    IF i >= Len(r) THEN TRUE
    ELSE LET A    == SubSeq(r, 1, i)
             ls   == TLCEval(LS(G, XT, A))
             rest == DOMAIN XT \ {r[k] : k \in 1..i}
             sp   == Step(G, XT, st, ls, r[i], rest)
             g    == sp.g[r[i + 1]]
         IN IF ls.det <= 0 \/ ~ZPos(sp.C) \/ sp.tied THEN TRUE             \* dependent features, or nothing left to explain
            ELSE /\ \A j \in rest : AboutLeq(g, sp.g[j])
                 /\ PathFrom(G, XT, r, i + 1, Move(st, ls, g))
Path(G, XT, r) == PathFrom(G, XT, r, 1, [den |-> Z(1), W |-> [k \in DOMAIN XT |-> [t \in DOMAIN XT[1] |-> Z(0)]]])

(* With several targets and correlations measured by their 2-norm the steps are irrational;  *)
(* decided for the second feature, up to 1/K of the way: feature j has reached the           *)
(* correlation of the first one, h, when Ahead is not positive any more.                     *)
K == 32
Ahead(G, XT, h, j, k) ==
    LET C2 == SumF([t \in DOMAIN XT[h] |-> XT[h][t] * XT[h][t]])
        g  == G[h][h]
        x(t) == LET y == ZSub(ZMul(Z(K * g), Z(XT[j][t])), ZMul(Z(k), Z(G[j][h] * XT[h][t]))) IN ZMul(y, y)
    IN ZSub(ZMul(ZMul(Z((K - k) * g), Z((K - k) * g)), Z(C2)), ZSum([t \in DOMAIN XT[h] |-> x(t)], Len(XT[h])))
Second(G, XT, r) ==
    LET h    == r[1]
        rest == DOMAIN XT \ {h}
    IN \/ Len(r) < 2 \/ G[h][h] = 0
       \/ \E j \in rest : ~ZPos(Ahead(G, XT, h, j, 0))
       \/ LET free == {k \in 1..K : \A i \in 1..k : ZPos(Ahead(G, XT, h, r[2], i))}
          IN \A j \in rest \ {r[2]} : \A k \in free : k + 1 \in free => ZLeq(Z(0), Ahead(G, XT, h, j, k))

(* norm: 1 or 2; res: rankings of the features for kmax = ks[i] *)
RankBad(X, T, norm, ks, res, path) ==
    LET G  == Gram(X)
        XT == Cross(X, T)
        cr == IF norm = 1 THEN Corr1(XT) ELSE Corr2(XT)
        p  == Len(X[1])
        i0 == CHOOSE i \in DOMAIN ks : \A j \in DOMAIN ks : ks[j] <= ks[i]
        long == res[i0]
        dist(r) == \A i \in DOMAIN r : r[i] \in 1..p /\ \A j \in DOMAIN r : i # j => r[i] # r[j]
    IN (IF \E i \in DOMAIN ks : Len(res[i]) # Min2(ks[i], p) THEN {"count"} ELSE {})
       \cup (IF \E i \in DOMAIN ks : ~dist(res[i]) THEN {"distinct"}
             ELSE IF \E i \in DOMAIN ks : Len(res[i]) > Len(long) \/ SubSeq(long, 1, Len(res[i])) # res[i] THEN {"prefix"}
             ELSE IF long = <<>> THEN {}
             ELSE (IF \E j \in 1..p : cr[j] > cr[long[1]] THEN {"first"} ELSE {})
                  \cup (IF IsOrtho(G) /\ \E i \in DOMAIN long : i > 1 /\ cr[long[i]] > cr[long[i - 1]] THEN {"ordered"} ELSE {})
                  \cup (IF IsOrtho(G) /\ \E j \in 1..p \ {long[i] : i \in DOMAIN long} : cr[j] > cr[long[Len(long)]] THEN {"ordered"} ELSE {})
                  \cup (IF path /\ (norm = 1 \/ Len(T[1]) = 1) /\ ~Path(G, XT, long) THEN {"path"} ELSE {})
                  \cup (IF path /\ norm = 2 /\ Len(T[1]) > 1 /\ ~Second(G, XT, long) THEN {"path"} ELSE {}))
==============================================================================
