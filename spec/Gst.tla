----------------------------------- MODULE Gst -----------------------------------
(* Gate-set tomography of one qubit (C21).  Gates are 4x4 real matrices on the Pauli   *)
(* vector (order I, X, Y, Z, normalised by 1/sqrt 2), preparation rho a column,        *)
(* measurement E a row.  A gate word is the sequence of gate labels in time order.      *)
EXTENDS CharCirc

PI == <<C1, C0, C0, C1>>
PZ == <<C1, C0, C0, <<-M, 0>>>>
PY == <<C0, <<0, -M>>, <<0, M>>, C0>>
PX == <<C0, C1, C1, C0>>
Paulis == <<PI, PX, PY, PZ>>
Dag(m) == <<CConj(m[1]), CConj(m[3]), CConj(m[2]), CConj(m[4])>>
(* Pauli transfer matrix of a unitary: half the trace of P_i U P_j U+                     *)
PTMof(u) == TLCEval([i \in 1..4 |-> [j \in 1..4 |->
              Tr2(Paulis[i], MatMul(MatMul(u, Paulis[j]), Dag(u)))[1] \div 2]])
Dot(a, b) == Mul(a[1], b[1]) + Mul(a[2], b[2]) + Mul(a[3], b[3]) + Mul(a[4], b[4])
Col(m, j) == <<m[1][j], m[2][j], m[3][j], m[4][j]>>
MM(a, b) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> Dot(a[i], Col(b, j))]])
MV(a, v) == TLCEval([i \in 1..4 |-> Dot(a[i], v)])
VM(v, a) == TLCEval([j \in 1..4 |-> Dot(v, Col(a, j))])
Eye4 == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN M ELSE 0]]
NearM(a, b, tol) == /\ Len(a) = 4 /\ Len(b) = 4 /\ \A i \in 1..4 : NearSeq(a[i], b[i], tol)
WordM(G, w) == FoldLeft(LAMBDA acc, g : MM(G[g], acc), Eye4, w)
Apply(G, v, w) == FoldLeft(LAMBDA acc, g : MV(G[g], acc), v, w)
Prob(T, w) == Dot(T.E, Apply(T.G, T.rho, w))

(* ---- the experiments of a gate set ----------------------------------------------------- *)
(* a label tuple is <<meas>>, <<prep, meas>> or <<prep, gate, meas>>                         *)
Tuples(gates, spams) == {<<f>> : f \in spams} \cup {<<a, b>> : a, b \in spams}
                        \cup {<<a, g, b>> : a, b \in spams, g \in gates}
WordFor(t, spam) == CASE Len(t) = 1 -> spam[t[1]]
                      [] Len(t) = 2 -> spam[t[1]] \o spam[t[2]]
                      [] OTHER -> spam[t[1]] \o <<t[2]>> \o spam[t[3]]
WordU(U, w) == FoldLeft(LAMBDA acc, g : TLCEval(MatMul(U[g], acc)), PI, w)

(* ---- linear inversion: the gauge B has the prepared states as columns -------------------- *)
(* Fs is the ordered list of SPAM labels                                                      *)
GaugeB(T, Fs, spam) == TLCEval(LET c == [j \in 1..4 |-> Apply(T.G, T.rho, spam[Fs[j]])] IN
                       [i \in 1..4 |-> [j \in 1..4 |-> c[j][i]]])
Gram(T, Fs, spam) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> Prob(T, spam[Fs[j]] \o spam[Fs[i]])]])
MkM(T, Fs, spam, g) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> Prob(T, spam[Fs[j]] \o <<g>> \o spam[Fs[i]])]])
(* L is the inverted gate set [G, E, rho]: equal to the true one in the gauge B               *)
InGauge(T, L, B, gates, tol) ==
   /\ \A g \in gates : NearM(MM(B, L.G[g]), MM(T.G[g], B), tol)
   /\ NearSeq(L.E, VM(T.E, B), tol)
   /\ NearSeq(MV(B, L.rho), T.rho, tol)

(* ---- inverse by Gauss-Jordan elimination with pivoting (fixed point) ----------------------- *)
PivotRow(a, k) == CHOOSE i \in k..4 : \A j \in k..4 : Abs(a[j][k]) <= Abs(a[i][k])
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Elim(a, k) == LET b == Swap(a, k, PivotRow(a, k))
                  r == [c \in 1..8 |-> Div(b[k][c], b[k][k])]
              IN [i \in 1..4 |-> IF i = k THEN r ELSE [c \in 1..8 |-> b[i][c] - Mul(b[i][k], r[c])]]
Inv4(m) == LET a0 == [i \in 1..4 |-> m[i] \o Eye4[i]]
               a == FoldLeft(LAMBDA acc, k : TLCEval(Elim(acc, k)), a0, <<1, 2, 3, 4>>)
           IN [i \in 1..4 |-> SubSeq(a[i], 5, 8)]
(* an estimate of the determinant: product of pivots                                            *)
PivotsBig(m, low) == LET run == FoldLeft(LAMBDA acc, k :
        IF ~acc.ok THEN acc ELSE
        LET p == acc.a[PivotRow(acc.a, k)][k] IN
        IF Abs(p) < low THEN [acc EXCEPT !.ok = FALSE] ELSE [ok |-> TRUE, a |-> TLCEval(Elim(acc.a, k))],
        [ok |-> TRUE, a |-> [i \in 1..4 |-> m[i] \o Eye4[i]]], <<1, 2, 3, 4>>) IN run.ok

(* ---- physical gate sets: trace preserving gates, normalised positive state ------------------ *)
TracePreserving(G, tol) == NearSeq(G[1], <<M, 0, 0, 0>>, tol)
(* a Pauli vector v (normalised by 1/sqrt 2) of a positive operator: v1 >= |(v2, v3, v4)|         *)
Positive(v, tol) == /\ v[1] >= -tol
                    /\ Mul(v[1] + tol, v[1] + tol) + 4 >= Mul(v[2], v[2]) + Mul(v[3], v[3]) + Mul(v[4], v[4])
(* a channel maps the six Pauli eigenstates to positive operators (necessary for positivity)       *)
MapsToPositive(G, tol) == \A k \in 2..4, s \in {-1, 1} :
     Positive(MV(G, [i \in 1..4 |-> IF i = 1 THEN R2 ELSE IF i = k THEN s * R2 ELSE 0]), tol)
UnitTrace(v, tol) == Near(v[1], R2, tol)
=============================================================================
