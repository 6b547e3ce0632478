-------------------------------- MODULE TomoFit --------------------------------
(* Tomography data and reconstruction.                                            *)
(* Store: sequence of [pl, ml, tab]; tab = <<bits, n>> pairs over tomography bits. *)
(* Matrices: rows of <<re, im>> micros, index v+1 for basis value v, tomography    *)
(* qubit i is bit i-1.                                                              *)
EXTENDS TomoCirc

(* ---- data handling -------------------------------------------------------------- *)
Cut(b, n) == SubSeq(b, 1, n)
Marg(tab, n) == [i \in 1..Len(tab) |-> <<Cut(tab[i][1], n), tab[i][2]>>]
(* selected bits (ascending positions, 0 based)                                        *)
Select(b, cl) == [i \in 1..Len(cl) |-> b[cl[i] + 1]]
MargOn(tab, cl) == [i \in 1..Len(tab) |-> <<Select(tab[i][1], cl), tab[i][2]>>]
Lookup(st, pl, ml) == LET S == {i \in 1..Len(st) : st[i].pl = pl /\ st[i].ml = ml} IN
                      IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
PutIn(st, pl, ml, tab) == LET k == Lookup(st, pl, ml) IN
   IF k = 0 THEN Append(st, [pl |-> pl, ml |-> ml, tab |-> tab])
   ELSE [st EXCEPT ![k].tab = @ \o tab]
(* one call: results is a sequence of results, each a sequence of [pl, ml, tab]           *)
(* the circuits asked for are looked up in every result                                   *)
AddCall(st, asked, results) ==
   FoldLeft(LAMBDA s, c : FoldLeft(LAMBDA s2, r : FoldLeft(LAMBDA s3, e :
        IF e.pl = c.pl /\ e.ml = c.ml THEN PutIn(s3, e.pl, e.ml, Marg(e.tab, Len(e.ml))) ELSE s3,
        s2, r), s, results), st, asked)
Has(results, c) == \E r \in 1..Len(results) : \E e \in 1..Len(results[r]) :
        results[r][e].pl = c.pl /\ results[r][e].ml = c.ml
SameStore(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in 1..Len(a) : LET k == Lookup(b, a[i].pl, a[i].ml) IN
                         k # 0 /\ SameCounts(a[i].tab, b[k].tab)
                         /\ \A x \in Keys(b[k].tab) : Len(x) = Len(a[i].ml)

(* ---- states and channels of words -------------------------------------------------- *)
AmpC(x, k) == LET h == Pow2(k \div 2)  f == IF k % 2 = 0 THEN M ELSE R2 IN
   <<((x[1] * f) + Mul((x[2] - x[4]) * R2, f)) \div h, ((x[3] * f) + Mul((x[2] + x[4]) * R2, f)) \div h>>
Amps(s) == TLCEval([i \in 1..Len(s.v) |-> AmpC(s.v[i], s.k)])
Outer(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> CMul(a[i], CConj(b[j]))]])
RhoOf(n, word) == LET a == Amps(Run(Ket(n, 0), word)) IN Outer(a, a)
(* Choi matrix: index (input i, output a) = i*d + a                                       *)
ChoiVec(n, word) == TLCEval(FlattenSeq([x \in 1..Pow2(n) |-> Amps(Run(Ket(n, x - 1), word))]))
ChoiOf(n, word) == LET a == ChoiVec(n, word) IN Outer(a, a)
Scale(A, f) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> <<Mul(A[i][j][1], f), Mul(A[i][j][2], f)>>]])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> CAdd(A[i][j], B[i][j])]])
(* mixture of words with weights in hundredths                                              *)
Mix(f(_), ws) == FoldLeft(LAMBDA acc, w : IF acc = <<>> THEN Scale(f(w.word), w.p * 10000)
                                          ELSE MAdd(acc, Scale(f(w.word), w.p * 10000)), <<>>, ws)

(* ---- Hermitian matrix facts ----------------------------------------------------------- *)
Square(A, d) == Len(A) = d /\ \A i \in 1..d : Len(A[i]) = d /\ \A j \in 1..d : A[i][j][1] # BAD /\ A[i][j][2] # BAD
Hermitian(A, tol) == \A i, j \in 1..Len(A) : CNear(A[i][j], CConj(A[j][i]), tol)
CTrace(A) == SumSeq([i \in 1..Len(A) |-> A[i][i][1]])
CMatMul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |->
      FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(A[i][k], B[k][j])), C0, [k \in 1..Len(A) |-> k])]])
NearCMat(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearVec(A[i], B[i], tol)
(* all pivots of A + eps positive                                                            *)
CDivR(z, r) == <<Div(z[1], r), Div(z[2], r)>>
Elim(A, k) == IF A = <<>> \/ A[k][k][1] <= 0 THEN <<>>
   ELSE TLCEval([i \in 1..Len(A) |-> IF i <= k \/ A[i][k] = C0 THEN A[i]
          ELSE LET f == CDivR(A[i][k], A[k][k][1]) IN
               [j \in 1..Len(A) |-> IF j > k /\ A[k][j] # C0 THEN CSub(A[i][j], CMul(f, A[k][j])) ELSE A[i][j]]])
PSD(A, eps) == FoldLeft(Elim, TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |->
          IF i = j THEN <<A[i][j][1] + eps, 0>> ELSE A[i][j]]]), [k \in 1..Len(A) |-> k]) # <<>>

(* ---- Pauli expansion -------------------------------------------------------------------- *)
P1(p, r, c) == CASE p = "I" -> IF r = c THEN C1 ELSE C0
   [] p = "X" -> IF r # c THEN C1 ELSE C0
   [] p = "Y" -> IF r = c THEN C0 ELSE IF r = 0 THEN <<0, -M>> ELSE <<0, M>>
   [] p = "Z" -> IF r # c THEN C0 ELSE IF r = 0 THEN C1 ELSE <<-M, 0>>
PEnt(P, r, c) == FoldLeft(LAMBDA acc, i : IF acc = C0 THEN C0 ELSE CMul(acc, P1(P[i], Bit(r, i - 1), Bit(c, i - 1))),
                          C1, [i \in 1..Len(P) |-> i])
Paulis(n) == [1..n -> {"I", "X", "Y", "Z"}]
Compat(P, ml) == \A i \in 1..Len(P) : P[i] = "I" \/ P[i] = ml[i]
Sign(P, b) == IF SumSeq([i \in 1..Len(P) |-> IF P[i] = "I" THEN 0 ELSE b[i]]) % 2 = 0 THEN 1 ELSE -1
ParMean(P, tab) == Micro(SumSeq([i \in 1..Len(tab) |-> Sign(P, tab[i][1]) * tab[i][2]]), Total(tab))
(* unweighted least squares over all settings = average over compatible settings              *)
ExpOf(P, st) == LET S == {i \in 1..Len(st) : Compat(P, st[i].ml)} IN
     SumOver(S, LAMBDA i : ParMean(P, st[i].tab)) \div Cardinality(S)
LinInv(n, st) == LET ex == TLCEval([P \in Paulis(n) |-> ExpOf(P, st)])  d == Pow2(n) IN
   TLCEval([r \in 1..d |-> [c \in 1..d |->
      LET s == FoldSet(LAMBDA P, acc : CAdd(acc, CMul(<<ex[P], 0>>, PEnt(P, r - 1, c - 1))), C0, Paulis(n))
      IN <<s[1] \div d, s[2] \div d>>]])
AllSettings(n, st) == {st[i].ml : i \in 1..Len(st)} = [1..n -> {"X", "Y", "Z"}]

(* projection onto unit-trace positive matrices: optimality conditions                          *)
(* P = X - mu + N,  N >= 0,  N P = 0                                                             *)
ClosestPSD(X, P, tol) ==
   LET d == Len(X)
       mu == CTrace(CMatMul(X, P)) - CTrace(CMatMul(P, P))        \* Tr P = 1
       N == TLCEval([i \in 1..d |-> [j \in 1..d |-> LET z == CSub(P[i][j], X[i][j]) IN
                IF i = j THEN <<z[1] + mu, z[2]>> ELSE z]])
       NP == CMatMul(N, P)
   IN  /\ PSD(N, tol) /\ \A i, j \in 1..d : CNear(NP[i][j], C0, tol)

(* weighted least squares: gradient of the weighted residual vanishes                            *)
(* probability of outcome v (bits) in setting ml under matrix A                                    *)
Vec1(lab, o) == LET s == CRun(CKet(1, 0), PrepGates(CASE lab = "X" -> (IF o = 0 THEN "Xp" ELSE "Xm")
      [] lab = "Y" -> (IF o = 0 THEN "Yp" ELSE "Ym") [] OTHER -> (IF o = 0 THEN "Zp" ELSE "Zm"), 0)) IN s.v
(* expectation of P in A                                                                            *)
TrPA(P, A) == FoldLeft(LAMBDA acc, r : acc + FoldLeft(LAMBDA a2, c : a2 + CMul(PEnt(P, r - 1, c - 1), A[c][r])[1],
                 0, [c \in 1..Len(A) |-> c]), 0, [r \in 1..Len(A) |-> r])
(* outcome o of setting ml: probability = 1/2^n sum over P compatible, sign *  Tr(P A)               *)
SubP(ml) == {P \in [1..Len(ml) -> {"I"} \cup {ml[i] : i \in 1..Len(ml)}] : Compat(P, ml)}
ProbIn(ml, b, ex) == SumOver(SubP(ml), LAMBDA P : Sign(P, b) * ex[P]) \div Pow2(Len(ml))
(* weight^2 relative: shots / (f (1-f)),  f = (2c + b) / (2 shots + bK) (beta = b/2), / wmax          *)
(* without hedging (b = 0) a setting with an outcome that never or always occurred is hedged by 1/2    *)
HedgeOf(tab, n, b) == IF b = 0 /\ \E v \in 0..(Pow2(n) - 1) : LET c == CountOf(tab, BitsOf(v, n)) IN c = 0 \/ c = Total(tab)
                      THEN 1 ELSE b
Hedged(c, shots, K, b) == Micro(2 * c + b, 2 * shots + b * K)
W2(c, shots, K, smax, b) == LET f == Hedged(c, shots, K, b) IN Div(Micro(shots, smax), Mul(f, M - f))
(* descent direction of the (weighted) squared residual in Pauli components, in units of 1/unit        *)
Descent(n, st, A, weighted, b, unit) ==
   LET ex == TLCEval([P \in Paulis(n) |-> TrPA(P, A)])
       smax == Max({Total(st[i].tab) : i \in 1..Len(st)})
       K == Pow2(n)
       hedge == TLCEval([i \in 1..Len(st) |-> HedgeOf(st[i].tab, n, b)])
       term(i, v) == LET o == BitsOf(v, n)  c == CountOf(st[i].tab, o)  sh == Total(st[i].tab)
                         r == Micro(c, sh) - ProbIn(st[i].ml, o, ex)
                     IN  (IF weighted THEN Mul(W2(c, sh, K, smax, hedge[i]), r) ELSE r) \div unit
       tm == TLCEval([i \in 1..Len(st) |-> [v \in 1..K |-> term(i, v - 1)]])
   IN  TLCEval([P \in Paulis(n) |->
         SumSeq([i \in 1..Len(st) |-> IF ~Compat(P, st[i].ml) THEN 0
               ELSE SumSeq([v \in 1..K |-> Sign(P, BitsOf(v - 1, n)) * tm[i][v]])])])
NormalEq(n, st, A, weighted, b, tol) ==
   LET g == Descent(n, st, A, weighted, b, 1) IN \A P \in Paulis(n) : Near(g[P], 0, tol)
(* optimum among the states (positive, unit trace): the gradient D is constant on the support of A and  *)
(* nowhere below that constant:  Z = D - Tr(D A) 1 is positive and Z A = 0                              *)
Optimal(n, st, A, weighted, b, unit, tol) ==
   LET g == Descent(n, st, A, weighted, b, unit)
       K == Pow2(n)
       D == TLCEval([r \in 1..K |-> [c \in 1..K |->
              LET z == FoldLeft(LAMBDA acc, P : CAdd(acc, CMul(<<g[P], 0>>, PEnt(P, r - 1, c - 1))), C0, SetToSeq(Paulis(n)))
              IN  <<-(z[1] \div K), -(z[2] \div K)>>]])
       lam == SumSeq([r \in 1..K |-> SumSeq([c \in 1..K |-> CMul(D[r][c], A[c][r])[1]])])
       Z == TLCEval([r \in 1..K |-> [c \in 1..K |-> IF r = c THEN <<D[r][c][1] - lam, D[r][c][2]>> ELSE D[r][c]]])
       ZA == CMatMul(Z, A)
   IN  PSD(Z, tol) /\ \A r, c \in 1..K : CNear(ZA[r][c], C0, tol)
(* expectation counts: operator key bits -> signed count                                               *)
ExpCount(tab, key) == SumSeq([i \in 1..Len(tab) |->
     (IF SumSeq([k \in 1..Len(key) |-> key[k] * tab[i][1][k]]) % 2 = 0 THEN 1 ELSE -1) * tab[i][2]])
=============================================================================
