-------------------------------- MODULE ElmMC --------------------------------
(* The life of model objects, explored exhaustively with the operators of    *)
(* Elm on a few neurons and blocks of data.  Besides the models, ghost       *)
(* variables remember what happened to them: the neurons added, the blocks   *)
(* fed since the last reset, what the solution was computed from, ...  The   *)
(* invariants say that the models are functions of these.                    *)
(* Every transition is printed: the calls are replayed on real objects.      *)
EXTENDS Elm, Json

CONSTANTS OpSet,        \* calls <<operation, slot, argument, argument>>
          MaxN, MaxFed  \* neurons of a model, blocks fed since the last reset

Slots == {o[2] : o \in OpSet}
NonePut == <<>>
Conf(s) == IF s = "a" THEN [d |-> 2, c |-> 2, prec |-> 64, batch |-> 2, norm |-> 4, cls |-> "", w |-> NoW]
                      ELSE [d |-> 2, c |-> 2, prec |-> 32, batch |-> 3, norm |-> 10, cls |-> "wc", w |-> NoW]
Neuron(k) == CASE k = "n1" -> [f |-> "lin",  col |-> [w |-> <<1, -1>>, b |-> 512]]
               [] k = "n2" -> [f |-> "tanh", col |-> [w |-> <<64, 0>>, b |-> 32768]]
               [] k = "n3" -> [f |-> "lin",  col |-> [w |-> <<0, 1>>, b |-> 0]]
X(k) == CASE k = "D1" -> << <<1, 2>>, <<-2, 0>>, <<3, 1>> >>
          [] k = "D2" -> << <<0, -1>>, <<2, 2>> >>
T(k) == CASE k = "D1" -> << <<2, 0>>, <<0, 2>>, <<2, 0>> >>
          [] k = "D2" -> << <<0, 2>>, <<2, 0>> >>
Given == [n |-> <<2, 1>>, d |-> 1]          \* explicit class weights
BSet(n) == [i \in 1..n |-> [j \in 1..2 |-> <<i - j, 150, 0>>]]
HHSet(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 6 ELSE 1]]
HTSet(n) == [i \in 1..n |-> [j \in 1..2 |-> 2 * i - j]]

VARIABLES m,        \* models by slot
          g,        \* their ghosts
          sv,       \* the saved model, <<record, ghost>> or <<>>
          fl,       \* the pair of files, <<record, ghost>> or <<>>
          last      \* last call, and was it refused
vars == <<m, g, sv, fl, last>>

NoBag == [D1 |-> 0, D2 |-> 0]
Ghost0(s) == [ns |-> <<>>, base |-> "", bag |-> NoBag, cls |-> Conf(s).cls, w |-> NoW, nrm |-> Conf(s).norm, sol |-> <<>>]
Fed(h) == h.bag.D1 + h.bag.D2
Empty(h) == h.base = "" /\ Fed(h) = 0
One(k) == [NoBag EXCEPT ![k] = 1]
Plus(b, k) == [b EXCEPT ![k] = @ + 1]
AutoOf(k) == IF k = "D1" THEN [n |-> <<3, 6>>, d |-> 2] ELSE [n |-> <<2, 2>>, d |-> 1]   \* 3/2 and 3; 2 and 2
WhenFed(h, k) == IF h.cls = "wc" /\ h.w = NoW THEN [h EXCEPT !.w = AutoOf(k)] ELSE h

Do(o) ==
    LET op == o[1]  s == o[2]  x == o[3]  y == o[4]
        mm == m[s]  h == g[s]
        none == L(mm) = 0
        upd(m2, h2) == m' = [m EXCEPT ![s] = m2] /\ g' = [g EXCEPT ![s] = h2] /\ last' = <<o, FALSE>>
        same == UNCHANGED <<m, g>> /\ last' = <<o, FALSE>>
        refused == UNCHANGED <<m, g, sv, fl>> /\ last' = <<o, TRUE>>
    IN CASE op = "addn" ->
              /\ Len(h.ns) < MaxN /\ \A i \in DOMAIN h.ns : h.ns[i] # x
              /\ upd(AddNeurons(mm, Neuron(x).f, <<Neuron(x).col>>, FALSE), [h EXCEPT !.ns = Append(@, x), !.base = "", !.bag = NoBag, !.sol = <<>>])
              /\ UNCHANGED <<sv, fl>>
         [] op = "add" ->
              IF none THEN refused
              ELSE /\ Fed(h) < MaxFed
                   /\ upd(Accum(mm, X(x), T(x)), LET h2 == WhenFed(h, x) IN [h2 EXCEPT !.bag = Plus(@, x)])
                   /\ UNCHANGED <<sv, fl>>
         [] op = "train" ->       \* y: mode
              IF none THEN refused
              ELSE LET fs == CASE y = "" -> {} [] y = "c" -> {"C"} [] OTHER -> {"WC"}
                       w  == IF y = "wcx" THEN Given ELSE NoW
                       w2 == IF y = "wcx" THEN Given ELSE IF y = "wc" THEN AutoOf(x) ELSE NoW
                   IN /\ upd(TrainBasic(mm, fs, w, 0, X(x), T(x)),
                             [h EXCEPT !.base = "", !.bag = One(x), !.cls = IF y = "wcx" THEN "wc" ELSE y, !.w = w2, !.sol = <<"ridge", "", One(x), w2, h.nrm>>])
                      /\ UNCHANGED <<sv, fl>>
         [] op = "solve" ->
              IF ~mm.acc.on THEN refused
              ELSE /\ upd(Solve(mm), [h EXCEPT !.sol = <<"ridge", h.base, h.bag, h.w, h.nrm>>])
                   /\ UNCHANGED <<sv, fl>>
         [] op = "reset" -> upd(Reset(mm), [h EXCEPT !.base = "", !.bag = NoBag]) /\ UNCHANGED <<sv, fl>>
         [] op = "setB" -> ~none /\ upd(SetB(mm, BSet(L(mm))), [h EXCEPT !.sol = <<"set", "", NoBag, NoW, 0>>]) /\ UNCHANGED <<sv, fl>>
         [] op = "setcorr" -> ~none /\ upd(SetCorr(mm, HHSet(L(mm)), HTSet(L(mm))), [h EXCEPT !.base = "set", !.bag = NoBag]) /\ UNCHANGED <<sv, fl>>
         [] op = "predict" -> IF none \/ ~mm.sol.on THEN refused ELSE same /\ UNCHANGED <<sv, fl>>
         [] op = "project" -> IF none THEN refused ELSE same /\ UNCHANGED <<sv, fl>>
         [] op = "error" -> ~(mm.cls = "wc" /\ mm.wc = NoW) /\ same /\ UNCHANGED <<sv, fl>>
         [] op = "confusion" -> IF mm.cls = "" THEN refused ELSE same /\ UNCHANGED <<sv, fl>>
         [] op = "save" -> same /\ sv' = <<Saved(mm), [h EXCEPT !.base = "", !.bag = NoBag]>> /\ UNCHANGED fl
         [] op = "load" -> IF sv = <<>> THEN refused
                           ELSE upd(Load(mm, sv[1]), sv[2]) /\ UNCHANGED <<sv, fl>>
         [] op = "addf" ->        \* accumulate in files
              IF none \/ (fl # <<>> /\ fl[1].n # L(mm)) THEN refused
              ELSE LET m2 == Accum(Reset(mm), X(x), T(x))
                       h2 == [WhenFed(h, x) EXCEPT !.base = "", !.bag = One(x)]
                       new == [HH |-> m2.acc.HH, HT |-> m2.acc.HT, den |-> m2.acc.den, norm |-> mm.norm, n |-> L(mm)]
                       k  == IF fl = <<>> THEN [new EXCEPT !.den = 1] ELSE fl[1]
                       dd == Lcm(k.den, m2.acc.den)
                   IN /\ (IF fl = <<>> THEN TRUE ELSE Len(fl[2].parts) < MaxFed)
                      /\ upd(m2, h2)
                      /\ fl' = IF fl = <<>> THEN <<new, [parts |-> <<<<h2.ns, x, IF h2.cls = "wc" THEN h2.w ELSE NoW>>>>, nrm |-> h.nrm]>>
                               ELSE <<[k EXCEPT !.den = dd,
                                        !.HH = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> (dd \div k.den) * @[i][j] + (dd \div m2.acc.den) * m2.acc.HH[i][j]]],
                                        !.HT = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> (dd \div k.den) * @[i][j] + (dd \div m2.acc.den) * m2.acc.HT[i][j]]]],
                                      [fl[2] EXCEPT !.parts = Append(@, <<h2.ns, x, IF h2.cls = "wc" THEN h2.w ELSE NoW>>)]>>
                      /\ UNCHANGED sv
         [] op = "solvecorr" ->
              IF none \/ fl = <<>> \/ fl[1].n # L(mm) THEN refused
              ELSE /\ upd([mm EXCEPT !.sol = SolOf(HHn(fl[1], IF fl[1].norm[1] = "int" THEN fl[1].norm[2] ELSE 0), fl[1].HT, fl[1].den)], [h EXCEPT !.sol = <<"file">> \o fl[2].parts \o <<fl[2].nrm>>])
                   /\ UNCHANGED <<sv, fl>>

Init == /\ m = [s \in Slots |-> NewModel(Conf(s))]
        /\ g = [s \in Slots |-> Ghost0(s)]
        /\ sv = <<>> /\ fl = <<>> /\ last = <<>>
Id(gg, s, f) == ToString(<<gg, IF s = <<>> THEN s ELSE s[2], IF f = <<>> THEN f ELSE f[2]>>)
Next == \E o \in OpSet :
          /\ Do(o)
          /\ PrintT("EDGE " \o ToJson(<<Id(g, sv, fl), o, Id(g', sv', fl')>>))
Spec == Init /\ [][Next]_vars
View == <<m, g, sv, fl>>

(* ------------------------------------------------- what must be true *)
(* columns in order: types by first addition *)
FOrder(ns) == SelectSeq(ns, LAMBDA k : \A i \in DOMAIN ns : Neuron(ns[i]).f = Neuron(k).f => \E q \in DOMAIN ns : ns[q] = k /\ q <= i)
Columns(ns) == Flat([i \in DOMAIN FOrder(ns) |-> SelectSeq(ns, LAMBDA k : Neuron(k).f = Neuron(FOrder(ns)[i]).f)])
H(k, x2) == Act2(Neuron(k).f, Neuron(k).col, x2)
Weight(w, t2) == IF w = NoW THEN <<1, 1>> ELSE <<w.n[ClassOf(t2)], w.d>>
(* sums over the rows of the blocks of a bag, over 4 * w.d *)
BagHH(ns, w, bag) == LET c == Columns(ns) IN
    [i \in DOMAIN c |-> [j \in DOMAIN c |-> SumF([k \in DOMAIN bag |-> bag[k] * SumF([r \in DOMAIN X(k) |-> Weight(w, T(k)[r])[1] * H(c[i], X(k)[r]) * H(c[j], X(k)[r])])])]]
BagHT(ns, w, bag) == LET c == Columns(ns) IN
    [i \in DOMAIN c |-> [j \in 1..2 |-> SumF([k \in DOMAIN bag |-> bag[k] * SumF([r \in DOMAIN X(k) |-> Weight(w, T(k)[r])[1] * H(c[i], X(k)[r]) * T(k)[r][j]])])]]
EqMat(A, da, B, db) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : A[i][j] * db = B[i][j] * da
WOfG(h) == IF h.cls = "wc" THEN h.w ELSE NoW

Neurons == \A s \in Slots : LET h == g[s] IN
    /\ L(m[s]) = Len(h.ns)
    /\ Flat([k \in DOMAIN m[s].groups |-> [j \in DOMAIN m[s].groups[k].cols |-> [f |-> m[s].groups[k].f, col |-> m[s].groups[k].cols[j]]]])
       = [i \in DOMAIN Columns(h.ns) |-> Neuron(Columns(h.ns)[i])]
AccumIsBag == \A s \in Slots : LET h == g[s]  w == WOfG(h)  a == m[s].acc  n == Len(h.ns) IN
    /\ a.on = ~Empty(h)
    /\ a.on => LET base == h.base = "set"
                   wd == w.d
               IN /\ EqMat(a.HH, 4 * a.den, [i \in 1..n |-> [j \in 1..n |-> BagHH(h.ns, w, h.bag)[i][j]
                                + IF base THEN wd * (4 * HHSet(n)[i][j] - IF i = j THEN h.nrm ELSE 0) ELSE 0]], 4 * wd)
                  /\ EqMat(a.HT, 4 * a.den, [i \in 1..n |-> [j \in 1..2 |-> BagHT(h.ns, w, h.bag)[i][j] + IF base THEN 4 * wd * HTSet(n)[i][j] ELSE 0]], 4 * wd)
(* a solution is that of what it was computed from, with the norm exactly once *)
SolFresh == \A s \in Slots : LET h == g[s]  q == m[s].sol  n == Len(h.ns) IN
    /\ q.on = (h.sol # <<>>)
    /\ (q.on /\ h.sol[1] = "ridge") =>
          LET w == IF q.on THEN h.sol[4] ELSE NoW IN
          EqMat(q.HH, 4 * q.den, [i \in 1..n |-> [j \in 1..n |-> BagHH(h.ns, w, h.sol[3])[i][j]
                    + (IF i = j THEN w.d * h.sol[5] ELSE 0) + IF h.sol[2] = "set" THEN w.d * (4 * HHSet(n)[i][j] - IF i = j THEN h.sol[5] ELSE 0) ELSE 0]], 4 * w.d)
    /\ (q.on /\ h.sol[1] = "set") => q.B = BSet(n)
Config == \A s \in Slots : /\ m[s].prec = Conf(s).prec /\ m[s].batch = Conf(s).batch
                           /\ m[s].cls = g[s].cls /\ (m[s].wc = NoW) = (g[s].w = NoW)
                           /\ (g[s].w # NoW => \A c \in 1..2 : m[s].wc.n[c] * g[s].w.d = g[s].w.n[c] * m[s].wc.d)
(* files hold every part fed once *)
FilesAreSum == fl # <<>> =>
    LET p == fl[2].parts  n == fl[1].n
        sum(i, j) == [k \in DOMAIN p |-> BagHH(p[k][1], p[k][3], One(p[k][2]))[i][j] * (LET D == 2 IN D \div p[k][3].d)]   \* over 8
    IN \A i, j \in 1..n : SumF(sum(i, j)) * fl[1].den = fl[1].HH[i][j] * 2
==============================================================================
