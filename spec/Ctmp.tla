---------------------------------- MODULE Ctmp ----------------------------------
(* Continuous-time readout noise (C23).  A generator [b, a, c] moves the bits of the     *)
(* qubits c from a to b (b[i], a[i] belong to qubit c[i]); the noise on n qubits is       *)
(* exp(sum of rate times generator).  Matrices are rows of micros, row/column v + 1 for    *)
(* basis value v, bit i-1 of a value belongs to the i-th qubit in ascending order.         *)
EXTENDS Reals

Dim(n) == Pow2(n)
EyeN(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN M ELSE 0]]
MMN(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a) |->
               SumSeq([k \in 1..Len(a) |-> IF a[i][k] = 0 THEN 0 ELSE Mul(a[i][k], b[k][j])])]])
Lin(a, x, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a) |-> a[i][j] + Mul(x, b[i][j])]])
Over(a, k) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a) |->
               IF a[i][j] < 0 THEN -((-a[i][j]) \div k) ELSE a[i][j] \div k]])
NearN(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
(* matrix exponential and logarithm (of a matrix close to one) by their series            *)
ExpM(g) == FoldLeft(LAMBDA acc, k : LET t == Over(MMN(acc.t, g), k) IN
                    TLCEval([t |-> t, s |-> Lin(acc.s, M, t)]),
                    [t |-> EyeN(Len(g)), s |-> EyeN(Len(g))], [k \in 1..14 |-> k]).s
Neg(g) == [i \in 1..Len(g) |-> [j \in 1..Len(g) |-> -g[i][j]]]
LogM(a) == LET e == Lin(a, -M, EyeN(Len(a)))             \* a - 1
           IN FoldLeft(LAMBDA acc, k : LET t == IF k = 1 THEN e ELSE MMN(acc.t, e) IN
                 TLCEval([t |-> t, s |-> Lin(acc.s, IF k % 2 = 1 THEN M ELSE -M, Over(t, k))]),
                 [t |-> <<>>, s |-> Lin(e, -M, e)], [k \in 1..20 |-> k]).s
Small(a) == \A j \in 1..Len(a) : a[j][j] > 600000
Stochastic(a, tol) == \A j \in 1..Len(a) : /\ Near(SumSeq([i \in 1..Len(a) |-> a[i][j]]), M, tol)
                                            /\ \A i \in 1..Len(a) : a[i][j] >= -tol

(* ---- generators ------------------------------------------------------------------------- *)
PosIn(q, qs) == CHOOSE i \in 1..Len(qs) : qs[i] = q
IsA(g, v, qs) == \A i \in 1..Len(g.c) : Bit(v, PosIn(g.c[i], qs) - 1) = g.a[i]
Moved(g, v, qs) == v + SumSeq([i \in 1..Len(g.c) |-> (g.b[i] - g.a[i]) * Pow2(PosIn(g.c[i], qs) - 1)])
Within(g, qs) == \A i \in 1..Len(g.c) : \E k \in 1..Len(qs) : qs[k] = g.c[i]
(* gens and rates (micros) of equal length; qs ascending                                        *)
GenMat(gens, rates, qs) == LET d == Dim(Len(qs)) IN
   TLCEval([y \in 1..d |-> [x \in 1..d |-> SumSeq([k \in 1..Len(gens) |->
      IF ~Within(gens[k], qs) \/ ~IsA(gens[k], x - 1, qs) THEN 0
      ELSE (IF Moved(gens[k], x - 1, qs) = y - 1 THEN rates[k] ELSE 0) - (IF x = y THEN rates[k] ELSE 0)])]])
G1(q, to) == [b |-> <<to>>, a |-> <<1 - to>>, c |-> <<q>>]
G2(b, a, j, k) == [b |-> b, a |-> a, c |-> <<j, k>>]
(* the standard set: single flips, both exchanges and both double flips of every pair           *)
StdSet(n) == LET pairs == {<<j, k>> \in (0..(n - 1)) \X (0..(n - 1)) : j < k} IN
   {G1(q, to) : q \in 0..(n - 1), to \in {0, 1}}
   \cup {G2(<<1, 1>>, <<0, 0>>, p[1], p[2]) : p \in pairs} \cup {G2(<<0, 0>>, <<1, 1>>, p[1], p[2]) : p \in pairs}
   \cup {G2(<<1, 0>>, <<0, 1>>, p[1], p[2]) : p \in pairs} \cup {G2(<<1, 0>>, <<0, 1>>, p[2], p[1]) : p \in pairs}
Strength(g) == Max({-g[i][i] : i \in 1..Len(g)})

(* ---- calibration: cal is a sequence of <<prepared value, sequence of <<value, n>>>> ------------ *)
(* local matrix of the qubits c (first one most significant), other qubits read as prepared         *)
LIdx(v, c) == FoldLeft(LAMBDA acc, q : 2 * acc + Bit(v, q), 0, c)
AgreeOut(x, y, c, n) == \A k \in 0..(n - 1) : (\E i \in 1..Len(c) : c[i] = k) \/ Bit(x, k) = Bit(y, k)
LCount(cal, n, c, r, s) == SumSeq([i \in 1..Len(cal) |-> IF LIdx(cal[i][1], c) # s THEN 0 ELSE
     SumSeq([k \in 1..Len(cal[i][2]) |-> IF AgreeOut(cal[i][1], cal[i][2][k][1], c, n) /\ LIdx(cal[i][2][k][1], c) = r
                                          THEN cal[i][2][k][2] ELSE 0])])
LocalA(cal, n, c) == LET d == Dim(Len(c))  cnt == TLCEval([r \in 1..d |-> [s \in 1..d |-> LCount(cal, n, c, r - 1, s - 1)]]) IN
   TLCEval([r \in 1..d |-> [s \in 1..d |-> Micro(cnt[r][s], SumSeq([k \in 1..d |-> cnt[k][s]]))]])
Complete(cal, n, c) == LET d == Dim(Len(c)) IN \A s \in 0..(d - 1) : SumSeq([r \in 1..d |-> LCount(cal, n, c, r - 1, s)]) > 0
Clamp(x) == IF x < 0 THEN 0 ELSE x
LocalG(cal, n, c) == LogM(LocalA(cal, n, c))
V2(b) == 2 * b[1] + b[2]
(* rate of a generator: two-qubit rates from the pair's own matrix, single-qubit rates the           *)
(* average over all other qubits and their two values                                                *)
RateFrom(Gs, n, g) ==           \* Gs[<<j, k>>] the logarithm of the local matrix
   IF Len(g.c) = 2 THEN Clamp(Gs[g.c][V2(g.b) + 1][V2(g.a) + 1])
   ELSE IF n = 1 THEN Clamp(Gs[g.c][g.b[1] + 1][g.a[1] + 1])
   ELSE LET ks == {k \in 0..(n - 1) : k # g.c[1]}
            at(k, s) == Clamp(Gs[<<g.c[1], k>>][2 * g.b[1] + s + 1][2 * g.a[1] + s + 1]) IN
        SumOver(ks, LAMBDA k : at(k, 0) + at(k, 1)) \div (2 * (n - 1))
Locals(n) == IF n = 1 THEN {<<0>>} ELSE {<<j, k>> \in (0..(n - 1)) \X (0..(n - 1)) : j # k}
LocalGs(cal, n) == TLCEval([c \in Locals(n) |-> LocalG(cal, n, c)])

(* ---- expectation values ---------------------------------------------------------------------- *)
(* counts table over len(qs) bits in the listed order, diagonal likewise                            *)
Rank(qs, i) == Cardinality({k \in 1..Len(qs) : qs[k] < qs[i]})
ToAsc(v, qs) == SumSeq([i \in 1..Len(qs) |-> Pow2(Rank(qs, i)) * Bit(v, i - 1)])
Marg(b, cl) == [i \in 1..Len(cl) |-> b[cl[i] + 1]]
(* exact mitigated value: sum over x, y of d(y) inv[y][x] p(x)                                        *)
ExactValue(inv, tab, cl, diag, qs) == LET d == Dim(Len(qs))  n == Total(tab)
       cnt == TLCEval([v \in 1..d |-> SumSeq([k \in 1..Len(tab) |-> IF ToAsc(ValOf(Marg(tab[k][1], cl)), qs) = v - 1 THEN tab[k][2] ELSE 0])])
       dg == TLCEval([v \in 1..d |-> SumSeq([w \in 1..d |-> IF ToAsc(w - 1, qs) = v - 1 THEN diag[w] ELSE 0])]) IN
   SumSeq([x \in 1..d |-> Mul(Micro(cnt[x], n), SumSeq([y \in 1..d |-> dg[y] * inv[y][x]]))])
=============================================================================
