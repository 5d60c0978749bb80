--------------------------------- MODULE Big ---------------------------------
(* Integers of any size.  Unsigned: sequences of digits in base 10^4, the    *)
(* lowest first, without leading zeros.  Signed: [s |-> is it negative,      *)
(* m |-> magnitude].                                                         *)
EXTENDS Integers, Sequences, TLC

RECURSIVE BigI(_)
BigI(n) == IF n = 0 THEN <<>> ELSE <<n % 10000>> \o BigI(n \div 10000)

RECURSIVE BAdd(_, _, _)
BAdd(a, b, k) ==
    IF a = <<>> /\ b = <<>> THEN IF k = 0 THEN <<>> ELSE <<k>>
    ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + k
         IN <<x % 10000>> \o BAdd(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div 10000)
BigAdd(a, b) == BAdd(a, b, 0)

RECURSIVE BMul1(_, _, _)
BMul1(a, d, k) == IF a = <<>> THEN IF k = 0 THEN <<>> ELSE <<k>>
                  ELSE LET x == a[1] * d + k IN <<x % 10000>> \o BMul1(Tail(a), d, x \div 10000)
RECURSIVE BigMul(_, _)
BigMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE BigAdd(IF b[1] = 0 THEN <<>> ELSE BMul1(a, b[1], 0),
                            LET r == BigMul(a, Tail(b)) IN IF r = <<>> THEN r ELSE <<0>> \o r)

BigLess(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in DOMAIN a : j > i => a[j] = b[j]

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BSub(_, _, _)
BSub(a, b, k) ==
    IF a = <<>> THEN <<>>
    ELSE LET x == a[1] - (IF b = <<>> THEN 0 ELSE b[1]) - k
         IN <<IF x < 0 THEN x + 10000 ELSE x>> \o BSub(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF x < 0 THEN 1 ELSE 0)
BigSub(a, b) == Trim(BSub(a, b, 0))               \* a >= b

ZZ(s, m) == TLCEval([s |-> s /\ m # <<>>, m |-> m])
Z(n) == IF n < 0 THEN ZZ(TRUE, BigI(-n)) ELSE ZZ(FALSE, BigI(n))
ZNeg(a) == ZZ(~a.s, a.m)
ZAbs(a) == ZZ(FALSE, a.m)
ZMul(a, b) == ZZ(a.s # b.s, BigMul(a.m, b.m))
ZAdd(a, b) == IF a.s = b.s THEN ZZ(a.s, BigAdd(a.m, b.m))
              ELSE IF BigLess(a.m, b.m) THEN ZZ(b.s, BigSub(b.m, a.m)) ELSE ZZ(a.s, BigSub(a.m, b.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZPos(a) == ~a.s /\ a.m # <<>>
ZZero(a) == a.m = <<>>
ZLeq(a, b) == ~ZPos(ZSub(a, b))
RECURSIVE ZSum(_, _)
ZSum(f, n) == IF n = 0 THEN Z(0) ELSE ZAdd(f[n], ZSum(f, n - 1))      \* of f[1..n]
==============================================================================
