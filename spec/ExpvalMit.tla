------------------------------- MODULE ExpvalMit -------------------------------
(* Expectation values of diagonal observables with readout mitigation.           *)
(* Matrices are sequences of rows of micros, index v+1 for basis value v; the     *)
(* i-th listed qubit is bit i-1 of a basis value.                                 *)
EXTENDS Ring8

Dim(n) == Pow2(n)
(* ---- calibration circuits ----------------------------------------------------- *)
Ones(n) == Pow2(n) - 1
StdLabels(n, method) ==
    CASE method = "tensored" -> <<0, Ones(n)>>
      [] method = "CTMP" -> <<0, Ones(n)>> \o [i \in 1..n |-> Pow2(i - 1)]
      [] method = "complete" -> [i \in 1..Pow2(n) |-> i - 1]
Calibrates(n, val, gs) ==
    LET body == SelectSeq(gs, LAMBDA g : g.g # "B") IN
    /\ AllKnown(body) /\ TerminalMeas(body)
    /\ IsKet(Run(Ket(n, 0), body), val)
    /\ Len(Measures(body)) = n
    /\ \A k \in 0..(n - 1) : \E m \in 1..Len(Measures(body)) :
          Measures(body)[m].q[1] = k /\ Measures(body)[m].c[1] = k

(* ---- fitted assignment matrices ------------------------------------------------- *)
(* cal: sequence of <<prepared value, table of <<bits, n>>>>                          *)
Agree(a, b, keep, n) == \A k \in 0..(n - 1) : k \in keep \/ Bit(a, k) = Bit(b, k)
(* counts of (measured r, prepared c) on one qubit q, other qubits read as prepared   *)
Local(cal, n, q, r, c) == SumSeq([i \in 1..Len(cal) |->
    IF Bit(cal[i][1], q) # c THEN 0
    ELSE CountWhere(cal[i][2], LAMBDA b : b[q + 1] = r /\ Agree(ValOf(b), cal[i][1], {q}, n))])
Full(cal, r, c) == SumSeq([i \in 1..Len(cal) |->
    IF cal[i][1] # c THEN 0 ELSE CountWhere(cal[i][2], LAMBDA b : ValOf(b) = r)])
Norm2(f(_, _), d) == [r \in 1..d |-> [c \in 1..d |->
    Micro(f(r - 1, c - 1), SumSeq([k \in 1..d |-> f(k - 1, c - 1)]))]]
ColsOK(f(_, _), d) == \A c \in 1..d : SumSeq([k \in 1..d |-> f(k - 1, c - 1)]) > 0
FitLocal(cal, n, q) == Norm2(LAMBDA r, c : Local(cal, n, q, r, c), 2)
FitFull(cal, n) == Norm2(LAMBDA r, c : Full(cal, r, c), Dim(n))
CanLocal(cal, n) == \A q \in 0..(n - 1) : ColsOK(LAMBDA r, c : Local(cal, n, q, r, c), 2)
CanFull(cal, n) == ColsOK(LAMBDA r, c : Full(cal, r, c), Dim(n))

(* ---- assignment matrix of listed qubits -------------------------------------------- *)
Spread(v, qs) == SumSeq([i \in 1..Len(qs) |-> Pow2(qs[i]) * Bit(v, i - 1)])
Gather(v, qs) == SumSeq([i \in 1..Len(qs) |-> Pow2(i - 1) * Bit(v, qs[i])])
(* complete: other qubits prepared in 0, their readout summed over                       *)
SubFull(A, qs) == LET d == Dim(Len(qs)) IN
    [r \in 1..d |-> [c \in 1..d |->
       SumSeq([v \in 1..Len(A) |-> IF Gather(v - 1, qs) = r - 1
                                   THEN A[v][Spread(c - 1, qs) + 1] ELSE 0])]]
SubLocal(As, qs) == LET d == Dim(Len(qs)) IN
    [r \in 1..d |-> [c \in 1..d |->
       FoldLeft(LAMBDA a, i : Mul(a, As[qs[i] + 1][Bit(r - 1, i - 1) + 1][Bit(c - 1, i - 1) + 1]),
                M, [i \in 1..Len(qs) |-> i])]]
MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |->
                   SumSeq([k \in 1..Len(A) |-> Mul(A[i][k], B[k][j])])]]
IsIdentity(A, tol) == \A i, j \in 1..Len(A) : Near(A[i][j], IF i = j THEN M ELSE 0, tol)
NearMat(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
TraceMean(A) == SumSeq([i \in 1..Len(A) |-> A[i][i]]) \div Len(A)
ColAbs(A, c) == SumSeq([i \in 1..Len(A) |-> Abs(A[i][c])])
Gamma(A) == Max({ColAbs(A, c) : c \in 1..Len(A)})

(* ---- expectation values --------------------------------------------------------------- *)
ZDiag(n) == [v \in 1..Dim(n) |-> IF Parity(BitsOf(v - 1, n)) = 0 THEN 1 ELSE -1]
(* marginal value of a bit sequence on ascending classical bits cl                        *)
MargVal(b, cl) == SumSeq([i \in 1..Len(cl) |-> Pow2(i - 1) * b[cl[i] + 1]])
(* probability vector (micro)                                                              *)
PVec(tab, cl) == LET n == Len(cl)  N == Total(tab) IN
    [v \in 1..Dim(n) |-> Micro(CountWhere(tab, LAMBDA b : MargVal(b, cl) = v - 1), N)]
(* coefficients of the estimator: c = mit^T diag (diag plain integers)                     *)
Coeffs(mit, diag) == [y \in 1..Len(diag) |-> SumSeq([x \in 1..Len(diag) |-> mit[x][y] * diag[x]])]
Plain(diag) == [y \in 1..Len(diag) |-> diag[y] * M]
Mean(c, p) == SumSeq([y \in 1..Len(c) |-> Mul(c[y], p[y])])
Mean2(c, p) == SumSeq([y \in 1..Len(c) |-> Mul(Mul(c[y], c[y]), p[y])])
ValOK(v, c, p) == Near(v, Mean(c, p), 400)
(* stddev s: s^2 * shots = E[c^2] - E[c]^2 (zero when that is not positive)                  *)
DevOK(s, c, p, shots) ==
    LET var == Mean2(c, p) - Mul(Mean(c, p), Mean(c, p))
        s2 == Mul(s, s)
    IN  /\ s # BAD /\ s >= 0
        /\ Near(s2, IF var > 0 THEN var \div shots ELSE 0, 6 + (Abs(var) \div (shots * 200)) + 4000 \div shots)
=============================================================================
