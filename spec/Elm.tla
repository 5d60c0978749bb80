-------------------------------- MODULE Elm --------------------------------
(* The state of one ELM / HPELM model object and what every public call does *)
(* to it.  Purely functional operators on model records; ElmMC explores them *)
(* exhaustively, ElmTrace validates recorded runs of the real code against   *)
(* them.                                                                     *)
(*                                                                           *)
(* Exact arithmetic.  Inputs X and targets T are logged doubled (X2, T2), W  *)
(* is an integer, biases are logged times 1024.  All neuron values used in   *)
(* accumulation are multiples of 1/2 (lin, and saturated tanh/sigm/rbf), so  *)
(* H is kept doubled (H2) and HH, HT are kept as integers over 4*den, where  *)
(* den is the common denominator of the class weights applied so far.        *)
EXTENDS Num, Tables

NoW == [n |-> <<>>, d |-> 1]                     \* no class weights
UnkW == [n |-> <<>>, d |-> 0]                    \* weights that the specification does not determine
NoAcc == [on |-> FALSE, known |-> TRUE, HH |-> <<>>, HT |-> <<>>, den |-> 1]
UnkAcc == [on |-> TRUE, known |-> FALSE, HH |-> <<>>, HT |-> <<>>, den |-> 1]   \* real numbers outside of this arithmetic
NoSol == [on |-> FALSE, kind |-> "none", HH |-> <<>>, HT |-> <<>>, den |-> 1, B |-> <<>>]

NewModel(a) ==
    [ d |-> a.d, c |-> a.c, prec |-> a.prec, batch |-> a.batch,
      norm |-> IF a.norm >= 0 THEN <<"int", a.norm>> ELSE <<"eps", a.prec>>,
      cls |-> a.cls, wc |-> a.w, groups |-> <<>>, opaque |-> FALSE,
      acc |-> NoAcc, sol |-> NoSol ]

Norm4(m) == IF m.norm[1] = "int" THEN m.norm[2] ELSE 0        \* in quarters
L(m) == SumF([g \in DOMAIN m.groups |-> Len(m.groups[g].cols)])

(* ---------------------------------------------------------- hidden layer *)
Pre(col, x2) == Dot(col.w, x2) + (col.b \div 512)            \* (x.w + b) * 2
RbfQ(f, col, x2) ==                                          \* squared distance * 4
    LET df == [i \in DOMAIN x2 |-> Abs(x2[i] - 2 * col.w[i])]
    IN  CASE f = "rbf_l1"   -> SumF(df) * SumF(df)
          [] f = "rbf_l2"   -> SumF([i \in DOMAIN df |-> df[i] * df[i]])
          [] f = "rbf_linf" -> MaxF(df) * MaxF(df)
RbfArg(f, col, x2) == (RbfQ(f, col, x2) * 4096) \div col.b   \* exponent * 16
IsRbf(f) == f \in {"rbf_l1", "rbf_l2", "rbf_linf"}

Sat(z) == IF z >= 40 THEN 1 ELSE IF z <= -40 THEN -1 ELSE 0
(* value * 2 of a neuron whose value is a multiple of 1/2; Odd if it is not *)
Odd == 777777                     \* "utanh": the numpy function tanh given as a neuron function, a type of its own
Act2(f, col, x2) ==
    IF IsRbf(f)
    THEN LET n == RbfArg(f, col, x2) IN IF n = 0 THEN 2 ELSE IF n >= 480 THEN 0 ELSE Odd
    ELSE LET z == Pre(col, x2) IN
         CASE f = "lin"  -> z
           [] f \in {"tanh", "utanh"} -> IF z = 0 THEN 0 ELSE IF Sat(z) # 0 THEN 2 * Sat(z) ELSE Odd
           [] f = "sigm" -> IF z = 0 THEN 1 ELSE IF z >= 40 THEN 0 ELSE IF z <= -40 THEN 2 ELSE Odd
           [] f = "negative" -> -z
           [] f = "absolute" -> Abs(z)
           [] f = "sign"     -> IF z > 0 THEN 2 ELSE IF z < 0 THEN -2 ELSE 0
           [] f = "floor"    -> 2 * (z \div 2)
           [] OTHER -> Odd
(* any value, as an observation triple *)
ActV(f, col, x2) ==
    IF Act2(f, col, x2) # Odd
    THEN LET h == Act2(f, col, x2) IN <<h \div 2, 150 * (h % 2), 0>>
    ELSE IF IsRbf(f) THEN ExpTab[RbfArg(f, col, x2)]
    ELSE LET z == Pre(col, x2) IN
         CASE f \in {"tanh", "utanh"} -> TanhTab[z + 41]
           [] f = "sigm" -> SigmTab[z + 41]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
HRow2(m, x2) == Flat([g \in DOMAIN m.groups |->
    [j \in DOMAIN m.groups[g].cols |-> Act2(m.groups[g].f, m.groups[g].cols[j], x2)]])
HRowV(m, x2) == Flat([g \in DOMAIN m.groups |->
    [j \in DOMAIN m.groups[g].cols |-> ActV(m.groups[g].f, m.groups[g].cols[j], x2)]])

(* ------------------------------------------------------------- neurons *)
AddNeurons(m, f, cols, opq) ==
    LET ix == {g \in DOMAIN m.groups : m.groups[g].f = f}
        gs == IF ix = {} THEN Append(m.groups, [f |-> f, cols |-> cols])
              ELSE LET g == CHOOSE g \in ix : TRUE
                   IN [m.groups EXCEPT ![g].cols = @ \o cols]
    IN [m EXCEPT !.groups = gs, !.acc = NoAcc, !.sol = NoSol, !.opaque = @ \/ opq]
DefaultLin(m, n) ==        \* lin neurons without weights copy the leading inputs
    [j \in 1..Min2(n, m.d) |-> [w |-> [i \in 1..m.d |-> IF i = j THEN 1 ELSE 0], b |-> 0]]

Reset(m) == [m EXCEPT !.acc = NoAcc]

(* neurons at the given positions (in the order of the given sequence) *)
Prune(m, idx) ==
    LET off(g) == SumF([h \in 1..(g-1) |-> Len(m.groups[h].cols)])
        pick(g) == LET in(i) == i > off(g) /\ i <= off(g) + Len(m.groups[g].cols)
                       sel == SelectSeq(idx, in)
                   IN [j \in DOMAIN sel |-> m.groups[g].cols[sel[j] - off(g)]]
    IN [m EXCEPT !.groups = [g \in DOMAIN m.groups |-> [f |-> m.groups[g].f, cols |-> pick(g)]],
                 !.acc = NoAcc, !.sol = NoSol]

(* -------------------------------------------------------- accumulation *)
ClassOf(t2) == CHOOSE c \in DOMAIN t2 : t2[c] = 2
ClassCount(T2, c) == Cardinality({r \in DOMAIN T2 : T2[r][c] = 2})
AutoW(T2, nc) ==
    LET ns == [c \in 1..nc |-> ClassCount(T2, c)]
        d  == FoldFunction(LAMBDA x, y : Lcm(x, y), 1, [c \in 1..nc |-> Max2(ns[c], 1)])
        N  == SumF(ns)
    IN  IF \E c \in 1..nc : ns[c] = 0 THEN UnkW          \* undefined
        ELSE LET n == [c \in 1..nc |-> (N * d) \div ns[c]]
                 g == FoldFunction(LAMBDA x, y : Gcd(x, y), d, n)
             IN [n |-> [c \in 1..nc |-> n[c] \div g], d |-> d \div g]
(* class weights are chosen at the first use of 'wc' without explicit ones *)
WithW(m, T2) == IF m.cls = "wc" /\ m.wc = NoW THEN [m EXCEPT !.wc = AutoW(T2, m.c)] ELSE m

Zero(n, k) == [i \in 1..n |-> [j \in 1..k |-> 0]]
Exact(m, X2) == ~m.opaque /\ \A r \in DOMAIN X2 : Odd \notin {HRow2(m, X2[r])[i] : i \in 1..L(m)}
Accum(m0, X2, T2) ==
    LET m  == WithW(m0, T2)
        H  == TLCEval([r \in DOMAIN X2 |-> HRow2(m, X2[r])])
        wt == m.cls = "wc"
        wd == IF wt THEN m.wc.d ELSE 1
        w  == TLCEval([r \in DOMAIN X2 |-> IF wt THEN m.wc.n[ClassOf(T2[r])] ELSE 1])
        n  == L(m)
        a  == IF m.acc.on THEN m.acc ELSE [on |-> TRUE, known |-> TRUE, HH |-> Zero(n, n), HT |-> Zero(n, m.c), den |-> 1]
        dd == Lcm(a.den, wd)
        fa == dd \div a.den
        fw == dd \div wd
        HH == [i \in 1..n |-> TLCEval([j \in 1..n |->
                 fa * a.HH[i][j] + fw * SumF([r \in DOMAIN X2 |-> w[r] * H[r][i] * H[r][j]])])]
        HT == [i \in 1..n |-> TLCEval([j \in 1..m.c |->
                 fa * a.HT[i][j] + fw * SumF([r \in DOMAIN X2 |-> w[r] * H[r][i] * T2[r][j]])])]
    IN  IF X2 = <<>> THEN m
        ELSE IF ~Exact(m, X2) \/ ~m.acc.known THEN [m EXCEPT !.acc = UnkAcc]
        ELSE [m EXCEPT !.acc = [on |-> TRUE, known |-> TRUE, HH |-> TLCEval(HH), HT |-> TLCEval(HT), den |-> dd]]

(* numerators over 4*den of the matrices a caller sees: norm on the diagonal once *)
HHn(acc, norm4) == [i \in DOMAIN acc.HH |-> [j \in DOMAIN acc.HH[i] |->
                     acc.HH[i][j] + IF i = j THEN acc.den * norm4 ELSE 0]]

SolOf(HHnum, HTnum, den) == [on |-> TRUE, kind |-> "ridge", HH |-> HHnum, HT |-> HTnum, den |-> den, B |-> <<>>]
AnySol == [NoSol EXCEPT !.on = TRUE, !.kind = "any"]
Solve(m) == IF ~m.acc.known THEN [m EXCEPT !.sol = AnySol] ELSE [m EXCEPT !.sol = SolOf(HHn(m.acc, Norm4(m)), m.acc.HT, m.acc.den)]
SetB(m, B) == [m EXCEPT !.sol = [on |-> TRUE, kind |-> "set", HH |-> <<>>, HT |-> <<>>, den |-> 1, B |-> B]]
SetCorr(m, HH, HT) ==         \* explicit integer matrices that include the norm
    [m EXCEPT !.acc = [on |-> TRUE, known |-> TRUE, den |-> 1,
        HH |-> [i \in DOMAIN HH |-> [j \in DOMAIN HH[i] |-> 4 * HH[i][j] - IF i = j THEN Norm4(m) ELSE 0]],
        HT |-> [i \in DOMAIN HT |-> [j \in DOMAIN HT[i] |-> 4 * HT[i][j]]]]]

(* ------------------------------------------------------------- training *)
Flag(flags, S) == flags \intersect S # {}
FlagsOk(m, flags) ==
    /\ Cardinality(flags \intersect {"C", "WC", "ML", "MC"}) <= 1
    /\ Cardinality(flags \intersect {"V", "CV", "LOO"}) <= 1
    /\ Flag(flags, {"C", "WC", "ML", "MC"}) => m.c > 1
ClsOf(flags) == IF "C" \in flags THEN "c" ELSE IF "WC" \in flags THEN "wc"
                ELSE IF Flag(flags, {"ML", "MC"}) THEN "ml" ELSE ""
Configure(m, flags, w, batch) ==
    [m EXCEPT !.acc = NoAcc, !.cls = ClsOf(flags),
              !.wc = IF "WC" \in flags THEN w ELSE NoW,
              !.batch = IF batch > 0 THEN batch ELSE @]
(* rows istart .. istart+icount-1, counted from zero; icount < 0 means all *)
Rows(S, istart, icount) ==
    LET n == IF icount < 0 THEN Len(S) - istart ELSE Min2(icount, Len(S) - istart)
    IN  SubSeq(S, istart + 1, istart + n)
TrainBasic(m, flags, w, batch, X2, T2) == Solve(Accum(Configure(m, flags, w, batch), X2, T2))

(* -------------------------------------------------------- save and load *)
Saved(m) == [d |-> m.d, c |-> m.c, cls |-> m.cls, wc |-> m.wc, groups |-> m.groups,
             opaque |-> m.opaque, norm |-> m.norm, sol |-> m.sol]
Load(m, s) == [m EXCEPT !.d = s.d, !.c = s.c, !.cls = s.cls, !.wc = s.wc, !.groups = s.groups,
                        !.opaque = s.opaque, !.norm = s.norm, !.sol = s.sol, !.acc = NoAcc]

(* ------------------------------------------------------------ evaluation *)
(* T doubled, Y times 'one'; results are <<numerator, denominator>> *)
(* observed v is the weighted mean of the error rates of classes: v * sum(w) = sum(w * bad / count) *)
WErrNear(m, T2, Y, v) ==
    LET cnt(c) == ClassCount(T2, c)
        bad(c) == Cardinality({r \in DOMAIN T2 : T2[r][c] = 2 /\ ArgMax(Y[r]) # c})
    IN LinNear(<<SumF(m.wc.n)>> \o [c \in 1..m.c |-> -m.wc.n[c]],
               <<v>> \o [c \in 1..m.c |-> FracV(bad(c), Max2(cnt(c), 1))], 0, 2, 0)
ErrorOf(m, T2, Y, one) ==
    LET N == Len(T2) IN
    CASE m.cls = "c"  -> <<Cardinality({r \in 1..N : ArgMax(T2[r]) # ArgMax(Y[r])}), N>>
      [] m.cls = "ml" -> <<SumF([r \in 1..N |-> Cardinality({c \in 1..m.c : (T2[r][c] > 1) # (2 * Y[r][c] > one)})]), N * m.c>>
      [] OTHER -> <<SumF([r \in 1..N |-> SumF([c \in 1..m.c |-> (Y[r][c] - (one \div 2) * T2[r][c]) * (Y[r][c] - (one \div 2) * T2[r][c])])]), one * one * N * m.c>>
ErrorNear(m, T2, Y, one, v) == IF m.cls = "wc" THEN WErrNear(m, T2, Y, v)
                           ELSE LET R == ErrorOf(m, T2, Y, one) IN Near(v, R[1], R[2])
Confusion(m, T2, Y, one) ==
    [i \in 1..m.c |-> [j \in 1..m.c |->
        Cardinality({r \in DOMAIN T2 :
            IF m.cls = "ml" THEN T2[r][i] > 1 /\ 2 * Y[r][j] > one
            ELSE ArgMax(T2[r]) = i /\ ArgMax(Y[r]) = j})]]

(* data descriptors: [kind, nd, r, c] of the array or file given to a call *)
DataOk(ds, cols) == /\ ds.kind = "num"
                    /\ ds.nd \in {1, 2}
                    /\ ds.cols = cols
PairOk(m, xs, ts) == DataOk(xs, m.d) /\ DataOk(ts, m.c) /\ xs.rows = ts.rows
=============================================================================
