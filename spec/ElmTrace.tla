------------------------------ MODULE ElmTrace ------------------------------
(* Validation of recorded histories of real ELM / HPELM objects.             *)
(* Each line of the trace file is one history: a sequence of events.  Every  *)
(* event is one public call with its arguments, its outcome, and the state   *)
(* of every live model after it.  The specification state is advanced with   *)
(* the operators of Elm; each clause that the recorded outcome violates is   *)
(* reported by name.                                                         *)
EXTENDS MssGen, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

Has(e, f) == f \in DOMAIN e
Set(s) == {s[i] : i \in DOMAIN s}
Emp == [models |-> [x \in {} |-> NewModel([d |-> 1, c |-> 1, prec |-> 64, batch |-> 1, norm |-> -1, cls |-> "", w |-> NoW])],
        saved  |-> [x \in {} |-> 0],
        corr   |-> [x \in {} |-> 0]]

K(m) == IF m.prec = 32 THEN 4 ELSE 0
WOf(w) == IF w = <<>> THEN NoW ELSE [n |-> w[1], d |-> w[2]]
ColsOf(e) == [j \in DOMAIN e.W |-> [w |-> e.W[j], b |-> e.b[j]]]

(* -------------------------------------------------- observed model state *)
NearV(v, w, k) == LinNear(<<1, -1>>, <<v, w>>, 0, 2, k)
GroupBad(g, o, k) ==
    \/ g.f # o.f
    \/ Len(g.cols) # o.n
    \/ Len(o.W) # Len(g.cols) \/ Len(o.b) # Len(g.cols)
    \/ \E j \in DOMAIN g.cols :
          IF Has(g.cols[j], "ow")              \* randomly chosen by the code: compared with the first observation
          THEN \/ Len(o.W[j]) # Len(g.cols[j].ow)
               \/ \E i \in DOMAIN o.W[j] : ~NearV(o.W[j][i], g.cols[j].ow[i], k)
               \/ ~NearV(o.b[j], g.cols[j].ob, k)
          ELSE \/ o.W[j] # [i \in DOMAIN g.cols[j].w |-> <<g.cols[j].w[i], 0, 0>>]
               \/ ~Near(o.b[j], g.cols[j].b, 1024)
(* groups may be left with zero neurons after structure selection: ignore those *)
NonEmpty(gs) == SelectSeq(gs, LAMBDA g : Len(g.cols) > 0)
ObsNonEmpty(gs) == SelectSeq(gs, LAMBDA g : g.n > 0)
NeuronsBad(m, o) ==
    LET gs == NonEmpty(m.groups)  os == ObsNonEmpty(o.groups) IN
    \/ Len(gs) # Len(os)
    \/ \E i \in DOMAIN gs : GroupBad(gs[i], os[i], K(m))

Shape(M, n, k) == Len(M) = n /\ \A i \in DOMAIN M : Len(M[i]) = k
CorrBad(HH, HT, n, c, HHnum, HTnum, den, k) ==
    (IF ~Shape(HH, n, n) THEN {"HHshape"}
     ELSE IF \E i, j \in 1..n : ~NearK(HH[i][j], HHnum[i][j], 4 * den, k) THEN {"HH"} ELSE {})
    \cup
    (IF ~Shape(HT, n, c) THEN {"HTshape"}
     ELSE IF \E i \in 1..n : \E j \in 1..c : ~NearK(HT[i][j], HTnum[i][j], 4 * den, k) THEN {"HT"} ELSE {})

SolBad(m, B) ==
    IF ~m.sol.on THEN IF B = <<>> THEN {} ELSE {"Bstale"}
    ELSE IF B = <<>> THEN {"Bmissing"}
    ELSE IF ~Shape(B, L(m), m.c) THEN {"Bshape"}
    ELSE IF m.sol.kind = "any" THEN {}
    ELSE IF m.sol.B # <<>>
    THEN IF \E i \in DOMAIN B : \E j \in DOMAIN B[i] : ~NearV(B[i][j], m.sol.B[i][j], K(m)) THEN {"Bchanged"} ELSE {}
    ELSE IF \E i \in DOMAIN B : \E j \in 1..m.c :
               ~LinNear(m.sol.HH[i], [q \in DOMAIN B |-> B[q][j]], m.sol.HT[i][j], 20 * m.sol.den, 20 * (1 + K(m)))
         THEN {"Bresidual"} ELSE {}

NormBad(m, o) == IF m.norm[1] = "int" THEN ~NearK(o.nrm.v, m.norm[2], 4, K(m))
                 ELSE IF m.norm[2] = 32 THEN o.nrm.r32 # 50 ELSE o.nrm.r64 # 50
WcBad(m, o) ==
    IF m.wc.d = 0 THEN FALSE           \* unknown after a refused call
    ELSE IF m.wc = NoW THEN o.wc # <<>>
    ELSE \/ Len(o.wc) # Len(m.wc.n)
         \/ \E i \in DOMAIN o.wc : ~NearK(o.wc[i], m.wc.n[i], m.wc.d, K(m))

ObsBad(m, o) ==
    (IF o.d # m.d \/ o.c # m.c THEN {"dims"} ELSE {}) \cup
    (IF NeuronsBad(m, o) THEN {"neurons"} ELSE {}) \cup
    (IF o.cls # m.cls THEN {"cls"} ELSE {}) \cup
    (IF WcBad(m, o) THEN {"wc"} ELSE {}) \cup
    (IF o.batch # m.batch THEN {"batch"} ELSE {}) \cup
    (IF ~o.solver THEN {"solver"} ELSE {}) \cup                \* the one it was created with
    (IF NormBad(m, o) THEN {"norm"} ELSE {}) \cup
    (IF \E x \in Set(o.bits) : x # m.prec THEN {"precision"} ELSE {}) \cup
    SolBad(m, o.B) \cup
    (IF m.acc.on /\ ~m.acc.known THEN (IF o.HH = <<>> THEN {"accmissing"} ELSE IF ~Shape(o.HH, L(m), L(m)) THEN {"HHshape"} ELSE IF ~Shape(o.HT, L(m), m.c) THEN {"HTshape"} ELSE {})
     ELSE IF ~m.acc.on THEN (IF o.HH # <<>> THEN {"accstale"} ELSE {})
     ELSE IF o.HH = <<>> THEN {"accmissing"}
     ELSE CorrBad(o.HH, o.HT, L(m), m.c, HHn(m.acc, Norm4(m)), m.acc.HT, m.acc.den, K(m)))

(* what is known about a model after its state was observed *)
Adopt(m, o) == IF m.sol.on /\ o.B # <<>> THEN [m EXCEPT !.sol.B = o.B] ELSE m

(* after a refused call: neurons and solution are unchanged, accumulated data *)
(* unchanged or discarded, configuration as observed                          *)
AfterRefusal(m, o) ==
    LET m1 == IF o.HH = <<>> THEN [m EXCEPT !.acc = NoAcc] ELSE m
        m2 == [m1 EXCEPT !.cls = o.cls, !.batch = o.batch]
        w  == IF o.wc = <<>> THEN NoW ELSE IF ~WcBad(m, o) THEN m.wc ELSE [n |-> <<>>, d |-> 0]
    IN [m2 EXCEPT !.wc = w]

(* ------------------------------------------------------------ transitions *)
M(s, e) == s.models[e.m]
Upper(e) == Set(e.flags)           \* flags are logged in upper case
MssFlags == {"V", "CV", "LOO"}

NewCorr(m, acc, prec) == [known |-> TRUE, HH |-> acc.HH, HT |-> acc.HT, den |-> acc.den, norm |-> m.norm, n |-> L(m), c |-> m.c, prec |-> prec]
CorrNorm(k) == IF k.norm[1] = "int" THEN k.norm[2] ELSE 0
AddCorr(k, acc) ==
    LET dd == Lcm(k.den, acc.den)  fa == dd \div k.den  fb == dd \div acc.den IN
    IF ~k.known \/ ~acc.known THEN [k EXCEPT !.known = FALSE] ELSE
    [k EXCEPT !.den = dd,
       !.HH = [i \in DOMAIN k.HH |-> [j \in DOMAIN k.HH[i] |-> fa * k.HH[i][j] + fb * acc.HH[i][j]]],
       !.HT = [i \in DOMAIN k.HT |-> [j \in DOMAIN k.HT[i] |-> fa * k.HT[i][j] + fb * acc.HT[i][j]]]]
ZeroAcc(m) == [on |-> TRUE, known |-> TRUE, HH |-> Zero(L(m), L(m)), HT |-> Zero(L(m), m.c), den |-> 1]

CorrFits(s, e, m) == e.corr \in DOMAIN s.corr => /\ s.corr[e.corr].n = L(m) /\ s.corr[e.corr].c = m.c

(* ---------------------------------------------- model structure selection *)
FlatCols(m) == Flat([g \in DOMAIN m.groups |-> [j \in DOMAIN m.groups[g].cols |-> [f |-> m.groups[g].f, c |-> m.groups[g].cols[j]]]])
FlatObs(o) == Flat([g \in DOMAIN o.groups |-> [j \in DOMAIN o.groups[g].W |-> [f |-> o.groups[g].f, W |-> o.groups[g].W[j], b |-> o.groups[g].b[j]]]])
SameCol(m, x, y) == x.f = y.f /\ ~GroupBad([f |-> x.f, cols |-> <<x.c>>], [f |-> y.f, n |-> 1, W |-> <<y.W>>, b |-> <<y.b>>], K(m))
ObsShapeOk(o) == \A g \in DOMAIN o.groups : Len(o.groups[g].W) = o.groups[g].n /\ Len(o.groups[g].b) = o.groups[g].n
(* position among the former neurons of every observed neuron; 0 if it is none of them *)
MssMap(m, o) ==
    LET F == FlatCols(m)  O == FlatObs(o)
        cand(i) == {x \in DOMAIN F : SameCol(m, F[x], O[i])}
        used(i) == Cardinality({h \in 1..(i - 1) : O[h] = O[i]})
        nth(C, q) == IF Cardinality(C) <= q THEN 0 ELSE CHOOSE x \in C : Cardinality({y \in C : y < x}) = q
    IN [i \in DOMAIN O |-> nth(cand(i), used(i))]
RECURSIVE IsSubSeq(_, _)
IsSubSeq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN IsSubSeq(Tail(a), Tail(b)) ELSE IsSubSeq(a, Tail(b))
MssBad(m, e, o) ==
    IF ~ObsShapeOk(o) \/ (\E i \in DOMAIN MssMap(m, o) : MssMap(m, o)[i] = 0) THEN {"notselection"}
    ELSE LET ks == [g \in DOMAIN o.groups |-> o.groups[g].f]
             n  == SumF([g \in DOMAIN o.groups |-> o.groups[g].n])
         IN (IF ~IsSubSeq(ks, [g \in DOMAIN m.groups |-> m.groups[g].f]) THEN {"order"} ELSE {})
            \cup (IF n = 0 THEN {"empty"} ELSE {})
            \cup (IF "OP" \in Upper(e) /\ e.kmax > 0 /\ n > e.kmax THEN {"kmax"} ELSE {})
(* the observed selection of neurons *)
Select(m, o) ==
    LET F == FlatCols(m)  mp == MssMap(m, o)
        off(g) == SumF([h \in 1..(g - 1) |-> o.groups[h].n])
    IN [m EXCEPT !.acc = NoAcc, !.sol = NoSol,
                 !.groups = [g \in DOMAIN o.groups |-> [f |-> o.groups[g].f,
                     cols |-> [j \in 1..o.groups[g].n |-> F[mp[off(g) + j]].c]]]]
MssModel(m, e, o) ==
    IF MssBad(m, e, o) # {} THEN m
    ELSE Solve(Accum(Select(WithW(Configure(m, Upper(e), WOf(e.w), e.batch), e.T), o), e.X, e.T))
(* the decision by the held-out criterion, for orthogonal hidden layers and for small ones of any kind *)
CritBad(m, e, o) ==
    IF MssBad(m, e, o) # {} THEN {}
    ELSE IF Has(e, "gen") THEN
         LET mm == WithW(Configure(m, Upper(e), WOf(e.w), e.batch), e.T)
             S  == Set(MssMap(m, o))
             me == MssMethod(Upper(e))
         IN IF L(m) > 4 \/ mm.prec = 32 \/ ~Exact(m, e.X) \/ ~Exact(m, e.Xv) THEN {}
            ELSE (IF ChosenG(mm, me, "OP" \in Upper(e), e.kmax, e.k, e.X, e.T, e.Xv, e.Tv, S) = "wrong" THEN {"criterion"} ELSE {})
                 \cup (IF me = "CV" /\ (~Has(e.ret, "v") \/ (Has(e.ret, "v") /\ ~CvErrorOkG(mm, e.k, e.X, e.T, S, e.ret.v))) THEN {"cverr"} ELSE {})
    ELSE IF ~e.ortho THEN {}
    ELSE LET mm == WithW(Configure(m, Upper(e), WOf(e.w), e.batch), e.T)
             S  == Set(MssMap(m, o))
             me == MssMethod(Upper(e))
         IN (IF Chosen(mm, me, "OP" \in Upper(e), e.kmax, e.k, e.X, e.T, e.Xv, e.Tv, S) = "wrong" THEN {"criterion"} ELSE {})
            \cup (IF me # "CV" THEN {}
                  ELSE IF ~Has(e.ret, "v") THEN {"cverr"}
                  ELSE LET r == CvError(mm, e.k, e.X, e.T, S) IN IF r = <<>> \/ NearK(e.ret.v, r[1], r[2], K(m)) THEN {} ELSE {"cverr"})

(* ------------------------------------ errors of all numbers of neurons *)
Lead(A, n, k) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..k |-> A[i][j]])])
ValModel(s, m, e) ==
    LET k == s.corr[e.corr]
        n == e.ret.Ls[e.ret.amin]
        p == Prune(m, [i \in 1..n |-> i])
    IN IF SizesBad(e.ret, e.steps, L(m)) # {} \/ Len(e.ret.errs) # Len(e.ret.Ls) THEN m
       ELSE IF ~k.known THEN [p EXCEPT !.sol = AnySol]
       ELSE [p EXCEPT !.sol = SolOf(Lead(HHn(k, CorrNorm(k)), n, n), Lead(k.HT, n, m.c), k.den)]
ValEventBad(s, m, e) ==
    LET k == s.corr[e.corr] IN
    IF ~k.known THEN ValBad(m, <<>>, <<>>, FALSE, e.X, e.T, e.ret, e.steps)
    ELSE ValBad(m, HHn(k, CorrNorm(k)), k.HT, TRUE, e.X, e.T, e.ret, e.steps)

Refuse(s, e) ==
    LET m == M(s, e) IN
    CASE e.op = "new"      -> e.w # <<>> /\ Len(e.w[1]) # e.c
      [] e.op = "addn"     -> e.malformed
      [] e.op = "add"      -> L(m) = 0 \/ ~PairOk(m, e.xs, e.ts) \/ (e.corr # "" /\ ~CorrFits(s, e, m))
      [] e.op = "train"    -> L(m) = 0 \/ ~PairOk(m, e.xs, e.ts) \/ ~FlagsOk(m, Upper(e))
                              \/ (e.w # <<>> /\ "WC" \in Upper(e) /\ Len(e.w[1]) # m.c)
      [] e.op = "mss"      -> L(m) = 0 \/ ~PairOk(m, e.xs, e.ts) \/ ~FlagsOk(m, Upper(e))
                              \/ (e.w # <<>> /\ "WC" \in Upper(e) /\ Len(e.w[1]) # m.c)
                              \/ ("CV" \in Upper(e) /\ e.k < 3)
                              \/ ("V" \in Upper(e) /\ (e.noval \/ ~PairOk(m, e.xvs, e.tvs)))
      [] e.op = "solve"    -> ~m.acc.on
      [] e.op = "solvecorr" -> e.corr \notin DOMAIN s.corr \/ L(m) = 0 \/ ~CorrFits(s, e, m)
      [] e.op = "valcorr"  -> e.corr \notin DOMAIN s.corr \/ L(m) = 0 \/ ~CorrFits(s, e, m) \/ ~PairOk(m, e.xs, e.ts)
                              \/ (e.steps.vec /\ (e.steps.v = <<>> \/ \E i \in DOMAIN e.steps.v : e.steps.v[i] \notin 1..L(m)))
      [] e.op = "setcorr"  -> e.malformed
      [] e.op = "setB"     -> e.malformed
      [] e.op = "predict"  -> L(m) = 0 \/ ~m.sol.on \/ ~DataOk(e.xs, m.d)
      [] e.op = "project"  -> L(m) = 0 \/ ~DataOk(e.xs, m.d)
      [] e.op = "error"    -> ~PairOk([m EXCEPT !.d = m.c], e.ts, e.ys)
      [] e.op = "confusion" -> m.cls = "" \/ ~PairOk([m EXCEPT !.d = m.c], e.ts, e.ys)
      [] e.op = "load"     -> e.name \notin DOMAIN s.saved
      [] OTHER -> FALSE

NextModel(s, e, o) ==
    LET m == M(s, e) IN
    CASE e.op = "addn" ->
            IF e.given THEN AddNeurons(m, e.f, ColsOf(e), FALSE)
            ELSE IF e.f = "lin" THEN AddNeurons(m, "lin", DefaultLin(m, e.n), FALSE)
            ELSE LET gs == {g \in DOMAIN o.groups : o.groups[g].f = e.f}
                     g  == CHOOSE g \in gs : TRUE
                     n0 == L([m EXCEPT !.groups = SelectSeq(@, LAMBDA x : x.f = e.f)])
                 IN  IF gs = {} \/ o.groups[g].n # n0 + e.n
                     THEN AddNeurons(m, e.f, [j \in 1..e.n |-> [ow |-> <<>>, ob |-> <<0, 0, 0>>]], TRUE)
                     ELSE AddNeurons(m, e.f, [j \in 1..e.n |-> [ow |-> o.groups[g].W[n0 + j], ob |-> o.groups[g].b[n0 + j]]], TRUE)
      [] e.op = "add" ->
            IF e.corr = "" THEN Accum(m, Rows(e.X, e.istart, e.icount), Rows(e.T, e.istart, e.icount))
            ELSE Accum(Reset(m), Rows(e.X, e.istart, e.icount), Rows(e.T, e.istart, e.icount))
      [] e.op = "train" ->
            TrainBasic(m, Upper(e), WOf(e.w), e.batch, Rows(e.X, e.istart, e.icount), Rows(e.T, e.istart, e.icount))
      [] e.op = "mss" -> MssModel(m, e, o)
      [] e.op = "solve" -> Solve(m)
      [] e.op = "reset" -> Reset(m)
      [] e.op = "solvecorr" ->
            LET k == s.corr[e.corr] IN IF ~k.known THEN [m EXCEPT !.sol = AnySol] ELSE [m EXCEPT !.sol = SolOf(HHn(k, CorrNorm(k)), k.HT, k.den)]
      [] e.op = "valcorr" -> ValModel(s, m, e)
      [] e.op = "setcorr" -> SetCorr(m, e.HH, e.HT)
      [] e.op = "setB" -> SetB(m, e.B)
      [] e.op = "load" -> Load(m, s.saved[e.name])
      [] e.op = "setbatch" -> [m EXCEPT !.batch = e.batch]
      [] OTHER -> m

(* after a call during which a process died or an operation failed: neurons   *)
(* and solution are unchanged, accumulated data is anything or discarded      *)
AfterFault(m, e, o) ==
    LET r  == AfterRefusal(m, o)
        wc == WithW(IF e.op = "train" THEN Configure(m, Upper(e), WOf(e.w), e.batch) ELSE m, Rows(e.T, e.istart, e.icount)).wc
    IN [r EXCEPT !.acc = IF o.HH = <<>> THEN NoAcc ELSE UnkAcc,
                 !.wc = IF r.wc.d = 0 /\ ~WcBad([m EXCEPT !.wc = wc], o) THEN wc ELSE r.wc]

(* ------------------------------------------------- results of evaluations *)
KO(m, e) == IF Has(e, "outdt") /\ e.outdt = "f4" THEN Max2(K(m), 4) ELSE K(m)     \* given array in single precision
PredRowBad(m, x2, y, k) ==
    \E j \in 1..m.c : LET h == HRow2(m, x2) IN
        ~LinNear(Append(h, -2), Append([q \in DOMAIN h |-> m.sol.B[q][j]], y[j]), 0, 4, k)
ProjRowBad(m, x2, h, k) ==
    LET w == HRowV(m, x2) IN Len(h) # Len(w) \/ \E j \in DOMAIN w : ~NearV(w[j], h[j], k)

RetBad(s, e) ==
    LET m == M(s, e) IN
    CASE e.op = "predict" ->
            LET R == Rows(e.X, e.istart, e.icount) IN
            IF ~Shape(e.ret.Y, Len(R), m.c) THEN {"rows"}
            ELSE (IF m.sol.B # <<>> /\ Exact(m, R) /\ \E r \in DOMAIN R : PredRowBad(m, R[r], e.ret.Y[r], KO(m, e)) THEN {"Y"} ELSE {})
                 \cup (IF ~e.ret.rest THEN {"rest"} ELSE {})
                 \cup (IF e.ret.dt \notin {0, m.prec} THEN {"precision"} ELSE {})
      [] e.op = "project" ->
            LET R == Rows(e.X, e.istart, e.icount) IN
            IF ~Shape(e.ret.Y, Len(R), L(m)) THEN {"rows"}
            ELSE (IF ~m.opaque /\ \E r \in DOMAIN R : ProjRowBad(m, R[r], e.ret.Y[r], KO(m, e)) THEN {"H"} ELSE {})
                 \cup (IF ~e.ret.rest THEN {"rest"} ELSE {})
                 \cup (IF e.ret.dt \notin {0, m.prec} THEN {"precision"} ELSE {})
      [] e.op = "error" ->
            IF ~ErrorNear(m, Rows(e.T, e.istart, e.icount), Rows(e.Y, e.istart, e.icount), e.yone, e.ret.v) THEN {"error"} ELSE {}
      [] e.op = "confusion" ->
            LET C == Confusion(m, e.T, e.Y, e.yone) IN
            IF ~Shape(e.ret.Y, m.c, m.c) THEN {"confshape"}
            ELSE IF \E i, j \in 1..m.c : e.ret.Y[i][j] # <<C[i][j], 0, 0>> THEN {"confusion"} ELSE {}
      [] OTHER -> {}

(* checks on what random initialisation produced *)
DefaultBad(e, o) ==
    IF e.op # "addn" \/ e.exc # "" THEN {}
    ELSE IF e.given THEN {}
    ELSE IF \E g \in DOMAIN o.groups : o.groups[g].f = e.f /\ IsRbf(e.f) /\ ~o.groups[g].posb THEN {"rbfwidth"}
    ELSE {}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* files with accumulated matrices, as read back after the call *)
FileBad(s, e) ==
    UNION { LET o == e.files[i] IN
            IF o.name \notin DOMAIN s.corr THEN IF o.exists THEN {"filenew"} ELSE {}
            ELSE IF ~o.exists THEN {"filemissing"}
            ELSE LET k == s.corr[o.name]
                     kk == IF k.prec = 32 THEN 4 ELSE 0
                     bd == IF ~k.known THEN {} ELSE CorrBad(o.HH, o.HT, k.n, k.c, HHn(k, CorrNorm(k)), k.HT, k.den, kk)
                 IN {"file " \o x : x \in bd} \cup (IF o.dt # k.prec THEN {"precision"} ELSE {})
          : i \in DOMAIN e.files }

NextCorr(s, e, m2) ==
    IF e.op = "add" /\ e.exc = "" /\ e.corr # "" /\ ~Refuse(s, e)
    THEN LET old == M(s, e)
             k == IF e.corr \in DOMAIN s.corr THEN s.corr[e.corr] ELSE NewCorr(old, ZeroAcc(old), old.prec)
         IN Put(s.corr, e.corr, IF m2.acc.on THEN AddCorr(k, m2.acc) ELSE k)
    ELSE s.corr

(* ---------------------------------------------------------------- one event *)
Labels(S) == S
StepOf(s, e) ==
    IF e.exc \in {"HANG", "DIED"} THEN [st |-> s, bad |-> {e.exc}]
    ELSE IF e.op = "new"
    THEN IF Refuse([s EXCEPT !.models = Put(@, e.m, NewModel([e EXCEPT !.w = NoW]))], e)
         THEN [st |-> s, bad |-> IF e.exc = "" THEN {"accepted"} ELSE {}]
         ELSE IF e.exc # "" THEN [st |-> s, bad |-> {"raised " \o e.exc}]
         ELSE LET m == NewModel([e EXCEPT !.w = WOf(@)])
                  o == e.obs[e.m]
                  others == {x \in DOMAIN s.models \ {e.m} : ~e.obs[x].same}
              IN [st |-> [s EXCEPT !.models = Put(@, e.m, m)],
                  bad |-> ObsBad(m, o) \cup (IF others # {} THEN {"other"} ELSE {})]
    ELSE IF e.op = "del"
    THEN [st |-> [s EXCEPT !.models = Del(@, e.m)],
          bad |-> IF \E x \in DOMAIN s.models \ {e.m} : ~e.obs[x].same THEN {"other"} ELSE {}]
    ELSE
    LET m      == M(s, e)
        o      == e.obs[e.m]
        others == {x \in DOMAIN s.models \ {e.m} : ~e.obs[x].same}
        ref    == Refuse(s, e)
        quiet  == e.op \in {"predict", "project", "error", "confusion", "save", "scribble"}
        always == (IF others # {} THEN {"other"} ELSE {}) \cup (IF e.mut THEN {"mutated"} ELSE {})
        unk    == ~ref /\ e.exc = "" /\ e.op \in {"add", "train", "mss"}
                  /\ LET c == IF e.op # "add" THEN Configure(m, Upper(e), WOf(e.w), e.batch) ELSE m
                         R == Rows(e.T, e.istart, e.icount)
                     IN c.cls = "wc" /\ (WithW(c, R).wc.d = 0 \/ \E r \in DOMAIN R : \A k \in 1..m.c : R[r][k] # 2)
    IN
    IF unk THEN [st |-> s, bad |-> {"GENERATOR"}] ELSE
    IF ref
    THEN IF e.exc = "" THEN [st |-> s, bad |-> {"accepted"}]
         ELSE LET m2 == IF o.same THEN m ELSE AfterRefusal(m, o)
              IN [st |-> [s EXCEPT !.models = Put(@, e.m, m2)],
                  bad |-> always \cup FileBad(s, e) \cup (IF o.same THEN {} ELSE {"refused " \o x : x \in ObsBad(m2, o)})]
    ELSE IF e.exc # "" /\ Has(e, "fault") /\ e.fault
    THEN LET m2 == IF o.same \/ quiet THEN m ELSE AfterFault(m, e, o)
         IN [st |-> [s EXCEPT !.models = Put(@, e.m, m2)],
             bad |-> always \cup FileBad(s, e) \cup (IF o.same THEN {} ELSE {"failed " \o x : x \in ObsBad(m2, o)} \cup IF quiet THEN {"failed self"} ELSE {})]
    ELSE IF e.exc # "" THEN [st |-> s, bad |-> {"raised " \o e.exc}]
    ELSE IF quiet
    THEN LET s2 == IF e.op = "save" THEN [s EXCEPT !.saved = Put(@, e.name, Saved(m))] ELSE s
         IN [st |-> s2,
             bad |-> always \cup FileBad(s, e) \cup RetBad(s, e) \cup (IF ~o.same THEN {"self " \o x : x \in ({"bits"} \cup ObsBad(m, o))} ELSE {})]
    ELSE LET m2 == NextModel(s, e, o)
             c2 == NextCorr(s, e, m2)
             s2 == [s EXCEPT !.models = Put(@, e.m, Adopt(m2, o)), !.corr = c2]
             ob == ObsBad(m2, o)
         IN [st |-> s2, bad |-> always \cup DefaultBad(e, o) \cup FileBad(s2, e) \cup
                     (IF e.op = "valcorr" THEN LET v == ValEventBad(s, m, e) IN v \cup (IF v \cap {"sizes", "errs"} # {} THEN {} ELSE ob)
                      ELSE IF e.op # "mss" THEN ob ELSE IF MssBad(m, e, o) # {} THEN MssBad(m, e, o) ELSE ob \cup CritBad(m, e, o))]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ st = Emp
        /\ bad = {}
Next == /\ l <= Len(Traces[t].events)
        /\ bad = {}
        /\ \E r \in {StepOf(st, Traces[t].events[l])} :        \* evaluated once
           /\ st' = r.st
           /\ bad' = r.bad
           /\ (r.bad # {}) => PrintT("BAD " \o ToJson(<<Traces[t].id, l, Traces[t].events[l].op, r.bad>>))
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
