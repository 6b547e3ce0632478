---------------------------------- MODULE Reals ----------------------------------
(* Exponential, logarithm and real powers in fixed point (micro), accurate to a few   *)
(* units of the last digit for the ranges used here.                                  *)
EXTENDS Common
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN M ELSE IF k % 2 = 0 THEN PowI(Mul(x, x), k \div 2) ELSE Mul(x, PowI(x, k - 1))
(* e^f for |f| <= 1                                                                     *)
RECURSIVE ExpTerm(_, _, _, _)
ExpTerm(f, k, term, acc) == IF k > 12 \/ term = 0 THEN acc
                            ELSE LET t == Mul(term, f) \div k IN ExpTerm(f, k + 1, t, acc + t)
ExpFrac(f) == ExpTerm(f, 1, M, M)
(* e^-x for x >= 0 (micro)                                                              *)
ExpNeg(x) == IF x > 20 * M THEN 0 ELSE Mul(PowI(367879, x \div M), ExpFrac(-(x % M)))
Exp(x) == IF x <= 0 THEN ExpNeg(-x) ELSE Mul(PowI(2718282, x \div M), ExpFrac(x % M))
(* ln y, 0 < y <= 40 : scale into [2/3, 4/3], then 2 atanh((m-1)/(m+1))                  *)
Ln2 == 693147
RECURSIVE LnScaled(_, _)
LnScaled(y, k) == IF y < 666667 THEN LnScaled(2 * y, k - 1)
                  ELSE IF y > 1333334 THEN LnScaled((y + 1) \div 2, k + 1)
                  ELSE LET t == Div(y - M, y + M)
                           t2 == Mul(t, t)   t3 == Mul(t, t2)  t5 == Mul(t3, t2)
                           t7 == Mul(t5, t2) t9 == Mul(t7, t2)
                       IN  k * Ln2 + 2 * t + (2 * t3) \div 3 + (2 * t5) \div 5 + (2 * t7) \div 7 + (2 * t9) \div 9
Ln(y) == LnScaled(y, 0)
(* x^n for 0 < x, real n (micro)                                                        *)
Pow(x, n) == IF n = 0 THEN M ELSE IF x <= 0 THEN 0 ELSE Exp(Mul(n, Ln(x)))
ProdSeq(s) == FoldLeft(LAMBDA a, x : Mul(a, x), M, s)
=============================================================================
