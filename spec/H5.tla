---------------------------------- MODULE H5 ----------------------------------
(* Data files: what make_hdf5 stores and what normalize_hdf5 makes of it.    *)
(* A file: [rows, cols, dt, X (integers), den, off, mark, mean, std, z]      *)
(* holds the values off + X/den when it is new (mark = "none").  The first   *)
(* normalization without parameters marks it "auto", one with parameters     *)
(* "given"; z are the last observed values, mean and std the statistics that *)
(* further calls without parameters return.                                  *)
EXTENDS Num

Tol(f) == IF f.dt = "f4" THEN 3 ELSE 0
(* ------------------------------------------------------------- make_hdf5 *)
Made(e) == [rows |-> IF e.nd = 1 THEN e.rows * e.cols ELSE e.rows, cols |-> IF e.nd = 1 THEN 1 ELSE e.cols,
            dt |-> e.dt, den |-> e.den, off |-> e.off,
            X |-> IF e.src = "tuple" THEN [i \in 1..e.rows |-> [j \in 1..e.cols |-> 0]]
                  ELSE IF e.nd = 1 THEN [i \in 1..(e.rows * e.cols) |-> <<e.X[((i - 1) \div e.cols) + 1][((i - 1) % e.cols) + 1]>>]
                  ELSE e.X,
            mark |-> "none", mean |-> <<>>, std |-> <<>>, z |-> <<>>]
MakeRefused(e) == e.src \in {"missing", "badname"} \/ e.nd = 3 \/ e.comp > 9
MadeBad(f, o) ==
    IF ~o.exists \/ ~o.ok THEN {"unreadable"}
    ELSE IF o.rows # f.rows \/ o.cols # f.cols THEN {"shape"}
    ELSE (IF o.dt # f.dt THEN {"dtype"} ELSE {}) \cup (IF ~o.exact \/ o.q # f.X THEN {"contents"} ELSE {})

(* --------------------------------------------------------- normalize_hdf5 *)
ColX(f, j) == [i \in 1..f.rows |-> f.X[i][j]]
S1(f, j) == SumF(ColX(f, j))
S2(f, j) == SumF([i \in 1..f.rows |-> f.X[i][j] * f.X[i][j]])
Var(f, j) == f.rows * S2(f, j) - S1(f, j) * S1(f, j)         \* rows^2 den^2 variance
(* returned statistics of the original data *)
StatsBad(f, ret) ==
    IF Len(ret.mean) # f.cols \/ Len(ret.std) # f.cols THEN {"stats"}
    ELSE IF \E j \in 1..f.cols : ~NearK(ret.mean[j], S1(f, j), f.rows * f.den, Tol(f)) THEN {"mean"}
    ELSE IF \E j \in 1..f.cols : ~NearK(ret.std2[j], Var(f, j), f.rows * f.rows * f.den * f.den, Tol(f)) \/ ret.std[j][1] < 0 THEN {"std"}
    ELSE {}
ShapeBad(f, o) == IF ~o.exists \/ ~o.ok THEN {"unreadable"}
                  ELSE (IF o.rows # f.rows \/ o.cols # f.cols THEN {"shape"} ELSE {}) \cup (IF o.dt # f.dt THEN {"dtype"} ELSE {})
AutoBad(f, o) ==
    IF ShapeBad(f, o) # {} THEN ShapeBad(f, o)
    ELSE IF \E j \in 1..f.cols : \E i \in 1..f.rows :
              LET x == f.rows * f.X[i][j] - S1(f, j)
                  v == Var(f, j)
              IN IF v = 0 THEN o.z[i][j] # <<0, 0, 0>>
                 ELSE ~NearK(o.z2[i][j], x * x, v, Tol(f)) \/ (x > 0 /\ o.sg[i][j] < 1) \/ (x < 0 /\ o.sg[i][j] > -1)
         THEN {"normalized"} ELSE {}
(* explicit parameters: std = s/sden; new are observed values; old values are exact in a new file *)
GivenBad(f, e, o) ==
    IF ShapeBad(f, o) # {} THEN ShapeBad(f, o)
    ELSE IF \E j \in 1..f.cols : \E i \in 1..f.rows :
              LET s   == IF e.std[j] = 0 THEN e.sden ELSE e.std[j]
                  tol == Tol(f) + IF e.vform = "f4" THEN 1 ELSE 0
              IN IF f.mark = "none"                  \* e.off = f.off
                 THEN ~NearK(o.z[i][j], (f.X[i][j] - e.mean[j] * f.den) * e.sden, s * f.den, tol)
                 ELSE ~LinNear(<<s, -e.sden>>, <<o.z[i][j], f.z[i][j]>>, -(e.mean[j] + e.off) * e.sden, 3, tol)
         THEN {"normalized"} ELSE {}
==============================================================================
