------------------------------- MODULE Common -------------------------------
(* Shared vocabulary: bit strings, outcome tables, fixed-point arithmetic.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
M == 1000000                     \* one, in fixed point ("micro")
BAD == -2000000000               \* sentinel logged for NaN / not a number

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)

Fold(op(_, _), acc, s) == FoldLeft(op, acc, s)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
MapS(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
Rng(n) == 1..n
HasKey(r, k) == k \in DOMAIN r

(* ---- bit strings: sequence b, element k+1 is bit k (bit 0 = rightmost) --- *)
BitsOf(v, n) == [k \in 1..n |-> (v \div Pow2(k - 1)) % 2]
ValOf(b) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, Reverse(b))
Bit(v, k) == (v \div Pow2(k)) % 2                \* bit k of integer v
Parity(b) == SumSeq(b) % 2
IsBits(b) == \A i \in 1..Len(b) : b[i] \in {0, 1}

(* ---- outcome tables: sequence of <<bits, n>> pairs ------------------------ *)
CountOf(tab, b) == SumSeq([i \in 1..Len(tab) |->
                        IF tab[i][1] = b THEN tab[i][2] ELSE 0])
Total(tab) == SumSeq([i \in 1..Len(tab) |-> tab[i][2]])
Keys(tab) == {tab[i][1] : i \in 1..Len(tab)}
SameCounts(t1, t2) == /\ \A b \in Keys(t1) \cup Keys(t2) :
                             CountOf(t1, b) = CountOf(t2, b)
CountWhere(tab, P(_)) == SumSeq([i \in 1..Len(tab) |->
                        IF P(tab[i][1]) THEN tab[i][2] ELSE 0])
NoDupKeys(tab) == Cardinality(Keys(tab)) = Len(tab)

(* ---- fixed point ---------------------------------------------------------- *)
(* TLC integers are 32 bit.  QuoRem-style long division, sign aware:          *)
(* Micro(n, d) = round-ish(10^6 * n / d), for 0 < d <= 2*10^6, |n/d| < 2000   *)
MicroNN(n, d) == LET q1 == (n \div d)   r1 == n % d
                     a == r1 * 1000     q2 == a \div d   r2 == a % d
                     b == r2 * 1000     q3 == b \div d
                 IN  q1 * M + q2 * 1000 + q3
Micro(n, d) == IF n < 0 THEN -MicroNN(-n, d) ELSE MicroNN(n, d)
(* product of two micros (values up to about 40 in absolute value)            *)
MulNN(a, b) == LET ah == a \div 1000  al == a % 1000
                   bh == b \div 1000  bl == b % 1000
               IN  ah * bh + (ah * bl) \div 1000 + (al * bh) \div 1000
                   + (((ah * bl) % 1000) + ((al * bh) % 1000)
                      + (al * bl) \div 1000) \div 1000
Mul(a, b) == IF (a < 0) = (b < 0) THEN MulNN(Abs(a), Abs(b))
             ELSE -MulNN(Abs(a), Abs(b))
(* quotient of two micros, result a micro; a up to 2*10^9 , b # 0             *)
DivNN(a, b) == LET q1 == a \div b  r1 == a % b
                   step(r) == IF b <= 200000000 THEN <<(r * 10) \div b, (r * 10) % b>>
                              ELSE <<(r \div (b \div 10)), 0>>
                   s1 == step(r1)    s2 == step(s1[2])  s3 == step(s2[2])
                   s4 == step(s3[2]) s5 == step(s4[2])  s6 == step(s5[2])
               IN  q1 * M + s1[1] * 100000 + s2[1] * 10000 + s3[1] * 1000
                   + s4[1] * 100 + s5[1] * 10 + s6[1]
Div(a, b) == IF (a < 0) = (b < 0) THEN DivNN(Abs(a), Abs(b))
             ELSE -DivNN(Abs(a), Abs(b))
Near(a, b, tol) == /\ a # BAD /\ b # BAD /\ Abs(a - b) <= tol
NearF(v, n, d) == Near(v, Micro(n, d), 2)     \* v is the micro of n/d
NearSeq(s, t, tol) == /\ Len(s) = Len(t)
                      /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
(* integer square root, for v < 2^30                                          *)
RECURSIVE SqrtIter(_, _, _)
SqrtIter(v, lo, hi) == IF lo >= hi THEN lo
                       ELSE LET m == (lo + hi + 1) \div 2 IN
                            IF m * m <= v THEN SqrtIter(v, m, hi)
                            ELSE SqrtIter(v, lo, m - 1)
ISqrt(v) == SqrtIter(v, 0, MinI(v, 46340))
(* s is the micro square root of micro x :  s*s ~ x                           *)
IsSqrt(s, x, tol) == /\ s # BAD /\ s >= 0
                     /\ Mul(MaxI(s - tol, 0), MaxI(s - tol, 0)) <= x + 2
                     /\ Mul(s + tol, s + tol) + 2 >= x

(* ---- clause-by-clause verdicts (trace validation) -------------------------- *)
JudgeAt(line, cl) == \A i \in 1..Len(cl) :
                        cl[i][2] \/ PrintT(<<"FAIL", line, cl[i][1]>>)
Emit(x) == PrintT("BEH " \o x)
=============================================================================
