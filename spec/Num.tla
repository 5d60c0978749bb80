-------------------------------- MODULE Num --------------------------------
(* Integer linear algebra and the comparison of observed floating point      *)
(* numbers with exact rational values.                                       *)
(*                                                                           *)
(* An observed number x is logged as a triple <<p, q, r>> with               *)
(*        x = p + q/300 + r/90000 (rounded),  0 <= q, r < 300.               *)
(* TLC integers are 32 bit, so every product of a logged limb with a         *)
(* coefficient stays below 2^31 as long as the sum of the absolute           *)
(* coefficients is below 7*10^6.  Numbers that are not finite or too large   *)
(* to be logged are <<Huge, 0, 0>>.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

Huge == 999999999
Big(v) == v[1] > 20000 \/ v[1] < -20000

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SumF(f) == FoldFunction(LAMBDA x, y : x + y, 0, f)          \* sum over a function / sequence
MaxF(f) == FoldFunction(LAMBDA x, y : Max2(x, y), f[CHOOSE i \in DOMAIN f : TRUE], f)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b

Dot(a, b) == SumF([i \in DOMAIN a |-> a[i] * b[i]])

(* |sum_i a[i]*v[i] - c| <= (tol + sum |a[i]|*(1 + k*(1+|v[i]|))) / 90000 *)
LinNear(a, v, c, tol, k) ==
    /\ \A i \in DOMAIN v : ~Big(v[i])
    /\ LET sa == SumF([i \in DOMAIN a |-> Abs(a[i])])
           r1 == SumF([i \in DOMAIN a |-> a[i] * v[i][1]]) - c
       IN  /\ Abs(r1) <= sa + tol + 2000
           /\ LET r2 == r1 * 300 + SumF([i \in DOMAIN a |-> a[i] * v[i][2]])
                  t  == tol + SumF([i \in DOMAIN a |-> Abs(a[i]) * (1 + k * (2 + Min2(Abs(v[i][1]), 1000)))])
              IN  /\ Abs(r2) <= 2 * sa + tol + 2000 + t \div 300
                  /\ Abs(r2 * 300 + SumF([i \in DOMAIN a |-> a[i] * v[i][3]])) <= t

(* observed v equals the rational num/den *)
NearK(v, num, den, k) == LinNear(<<den>>, <<v>>, num, 2, k)
Near(v, num, den)  == NearK(v, num, den, 0)
(* the rational n/d rounded down, as an observation triple; 0 <= n, 0 < d < 7*10^6 *)
FracV(n, d) == LET a == (n % d) * 300 IN <<n \div d, a \div d, ((a % d) * 300) \div d>>
SameObs(v, w) == /\ Len(v) = Len(w)
                 /\ \A i \in DOMAIN v : v[i] = w[i]

MatNear(M, num(_, _), den, k) ==     \* observed matrix against num(i,j)/den
    \A i \in DOMAIN M : \A j \in DOMAIN M[i] : NearK(M[i][j], num(i, j), den, k)

(* index of the first largest element of a sequence of integers *)
ArgMax(s) == CHOOSE i \in DOMAIN s : /\ \A j \in DOMAIN s : s[j] <= s[i]
                                     /\ \A j \in DOMAIN s : j < i => s[j] < s[i]
=============================================================================
