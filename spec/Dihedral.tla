------------------------------- MODULE Dihedral -------------------------------
(* CNOT-dihedral elements as monomial unitaries up to global phase: basis value x  *)
(* goes to w^(ph[x]) |f[x]>, w = e^{i pi/4}; normalised so that ph at 0 is 0.       *)
(* Sequences are indexed x + 1; qubit j is bit j of x.                              *)
EXTENDS Common

Dom(n) == 1..Pow2(n)
Id(n) == [n |-> n, f |-> [i \in Dom(n) |-> i - 1], ph |-> [i \in Dom(n) |-> 0]]
Norm(d) == [d EXCEPT !.ph = [i \in Dom(d.n) |-> (d.ph[i] + 8 - d.ph[1]) % 8]]
FlipBit(x, q) == IF Bit(x, q) = 1 THEN x - Pow2(q) ELSE x + Pow2(q)
(* d followed by "basis value y goes to g(y) with extra phase h(y)"                  *)
Then1(d, g(_), h(_)) == [n |-> d.n, f |-> [i \in Dom(d.n) |-> g(d.f[i])],
                         ph |-> [i \in Dom(d.n) |-> (d.ph[i] + h(d.f[i])) % 8]]
Cnot(d, c, t) == Norm(Then1(d, LAMBDA y : IF Bit(y, c) = 1 THEN FlipBit(y, t) ELSE y, LAMBDA y : 0))
Phase(d, k, q) == Norm(Then1(d, LAMBDA y : y, LAMBDA y : IF Bit(y, q) = 1 THEN (k % 8) ELSE 0))
Flip(d, q) == Norm(Then1(d, LAMBDA y : FlipBit(y, q), LAMBDA y : 0))
Cz(d, a, b) == Norm(Then1(d, LAMBDA y : y, LAMBDA y : IF Bit(y, a) = 1 /\ Bit(y, b) = 1 THEN 4 ELSE 0))
Swap(d, a, b) == Cnot(Cnot(Cnot(d, a, b), b, a), a, b)
(* a then b as a circuit, i.e. the matrix product b * a                               *)
Seq2(a, b) == Norm([n |-> a.n, f |-> [i \in Dom(a.n) |-> b.f[a.f[i] + 1]],
                    ph |-> [i \in Dom(a.n) |-> (a.ph[i] + b.ph[a.f[i] + 1]) % 8]])
PreImg(d, y) == CHOOSE i \in Dom(d.n) : d.f[i] = y
Adj(d) == Norm([n |-> d.n, f |-> [i \in Dom(d.n) |-> PreImg(d, i - 1) - 1],
                ph |-> [i \in Dom(d.n) |-> (8 - d.ph[PreImg(d, i - 1)]) % 8]])
Conj(d) == Norm([d EXCEPT !.ph = [i \in Dom(d.n) |-> (8 - d.ph[i]) % 8]])
Transp(d) == Adj(Conj(d))
RECURSIVE PowD(_, _)
PowD(d, k) == IF k = 1 THEN d ELSE Seq2(PowD(d, k - 1), d)
(* a on the low qubits, b on the high ones                                             *)
Tens(a, b) == LET low(i) == ((i - 1) % Pow2(a.n)) + 1   high(i) == ((i - 1) \div Pow2(a.n)) + 1 IN
    Norm([n |-> a.n + b.n,
          f |-> [i \in Dom(a.n + b.n) |-> a.f[low(i)] + Pow2(a.n) * b.f[high(i)]],
          ph |-> [i \in Dom(a.n + b.n) |-> (a.ph[low(i)] + b.ph[high(i)]) % 8]])

(* ---- circuits ------------------------------------------------------------------------ *)
DiagU(g) == g.u[1] = 0 /\ g.u[3] = -1
AntiU(g) == g.u[1] = 0 /\ g.u[2] = -1
MonoGate(g) == CASE g.g = "U" -> DiagU(g) \/ AntiU(g) [] OTHER -> g.g \in {"CX", "CZ", "SW"}
AppM(d, g) == CASE g.g = "CX" -> Cnot(d, g.q[1], g.q[2])
                [] g.g = "CZ" -> Cz(d, g.q[1], g.q[2])
                [] g.g = "SW" -> Swap(d, g.q[1], g.q[2])
                [] DiagU(g) -> Norm(Then1(d, LAMBDA y : y,
                                  LAMBDA y : IF Bit(y, g.q[1]) = 1 THEN g.u[5] ELSE g.u[2]))
                [] OTHER -> Norm(Then1(d, LAMBDA y : FlipBit(y, g.q[1]),
                                  LAMBDA y : IF Bit(y, g.q[1]) = 1 THEN g.u[3] ELSE g.u[4]))
MonoCirc(gs) == \A i \in 1..Len(gs) : MonoGate(gs[i])
RunM(n, gs) == FoldLeft(LAMBDA d, g : TLCEval(AppM(d, g)), Id(n), gs)
Denotes(n, gs, d) == MonoCirc(gs) /\ RunM(n, gs) = d
(* matrix logged as column |-> <<row, phase>>                                            *)
OfMatrix(n, m) == Norm([n |-> n, f |-> [i \in Dom(n) |-> m[i][1]], ph |-> [i \in Dom(n) |-> m[i][2]]])

(* ---- membership: affine permutation and phase polynomial of degree three with          *)
(* coefficients in Z8, 2 Z8, 4 Z8 (Moebius inversion of the phase function)                *)
XorV(x, y, n) == SumSeq([k \in 1..n |-> Pow2(k - 1) * ((Bit(x, k - 1) + Bit(y, k - 1)) % 2)])
Affine(d) == \A x, y \in 0..(Pow2(d.n) - 1) :
    d.f[XorV(x, y, d.n) + 1] = XorV(XorV(d.f[x + 1], d.f[y + 1], d.n), d.f[1], d.n)
Weight(x, n) == SumSeq(BitsOf(x, n))
SubMask(a, x, n) == \A k \in 0..(n - 1) : Bit(a, k) <= Bit(x, k)
Coef(d, x) == SumSeq([i \in Dom(d.n) |->
      IF SubMask(i - 1, x, d.n)
      THEN (IF (Weight(x, d.n) - Weight(i - 1, d.n)) % 2 = 0 THEN d.ph[i] ELSE 8 - d.ph[i]) ELSE 0]) % 8
Special(d) == \A x \in 0..(Pow2(d.n) - 1) : LET w == Weight(x, d.n) IN
     Coef(d, x) % (IF w <= 1 THEN 1 ELSE IF w = 2 THEN 2 ELSE IF w = 3 THEN 4 ELSE 8) = 0
InGroup(d) == Affine(d) /\ Special(d)
=============================================================================
