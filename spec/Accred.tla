--------------------------------- MODULE Accred ---------------------------------
(* Accreditation (C14): a circuit of alternating one-qubit layers and two-qubit    *)
(* layers is one-time padded: after each one-qubit layer random Paulis X^x Z^z are *)
(* inserted and undone (propagated through the two-qubit layer) before the next    *)
(* one; the last ones are undone classically.  Traps replace the one-qubit layers  *)
(* so that an ideal device returns all zeros.                                       *)
EXTENDS CSim

Bits(n) == [1..n -> {0, 1}]
Xor2(a, b) == (a + b) % 2
(* the gates X^x Z^z on every qubit; Z first                                        *)
PauliGates(x, z) == FlattenSeq([q \in 1..Len(x) |->
     (IF z[q] = 1 THEN <<U1(uZ, q - 1)>> ELSE <<>>) \o (IF x[q] = 1 THEN <<U1(uX, q - 1)>> ELSE <<>>)])
TwoG(kind, d) == IF kind = "cx" THEN CXg(d[1], d[2]) ELSE [g |-> "CZ", q |-> d]
(* propagation of a Pauli through a two-qubit gate on qubits a (control), b          *)
PropX(kind, x, z, a, b) == IF kind = "cx" THEN [x EXCEPT ![b] = Xor2(x[b], x[a])] ELSE x
PropZ(kind, x, z, a, b) ==
    IF kind = "cx" THEN [z EXCEPT ![a] = Xor2(z[a], z[b])]
    ELSE [z EXCEPT ![a] = Xor2(z[a], x[b]), ![b] = Xor2(z[b], x[a])]
(* the two trap choices around a two-qubit gate, as <<before, after>>                *)
TrapPair(kind, ch, a, b) ==
    IF kind = "cx"
    THEN IF ch = 1 THEN << <<U1(uH, a), U1(uS, b), U1(uH, b)>>, <<U1(uH, a), U1(uH, b), U1(uSdg, b)>> >>
                   ELSE << <<U1(uS, a)>>, <<U1(uSdg, a)>> >>
    ELSE IF ch = 1 THEN << <<U1(uH, a), U1(uS, b)>>, <<U1(uH, a), U1(uSdg, b)>> >>
                   ELSE << <<U1(uS, a), U1(uH, b)>>, <<U1(uSdg, a), U1(uH, b)>> >>
TrapIdle(ch, q) == IF ch = 1 THEN << <<U1(uH, q)>>, <<U1(uH, q)>> >>
                             ELSE << <<U1(uS, q)>>, <<U1(uSdg, q)>> >>

(* ---- observable quantities of a finished circuit ----------------------------------- *)
(* micro-probability of each classical value                                            *)
ClDist(gs, n, nc) ==
   LET s == CRun(CKet(n, 0), gs)
       ms == Measures(gs)
       cv(v) == SumSeq([i \in 1..Len(ms) |-> Pow2(ms[i].c[1]) * Bit(v, ms[i].q[1])])
       p == [v \in 1..Pow2(n) |-> <<cv(v - 1), CProb(s, v - 1)>>]
   IN  FoldLeft(LAMBDA d, e : [d EXCEPT ![e[1] + 1] = @ + e[2]], [c \in 1..Pow2(nc) |-> 0], p)
(* correcting with a post-processing string flips the marked classical bits             *)
XorVal(v, bs) == SumSeq([k \in 1..Len(bs) |-> Pow2(k - 1) * Xor2(Bit(v, k - 1), bs[k])])
Corrected(D, bs) == [c \in 1..Len(D) |-> D[XorVal(c - 1, bs) + 1]]
(* ---- what traps are for: a Pauli fault in a two-qubit layer changes a trap's outcome ---- *)
TwoPos(gs) == SelectSeq([i \in 1..Len(gs) |-> i], LAMBDA i : gs[i].g \in {"CX", "CZ"})
PauliAt(p, q) == CASE p = "X" -> <<U1(uX, q)>> [] p = "Z" -> <<U1(uZ, q)>> [] OTHER -> <<U1(uZ, q), U1(uX, q)>>
Faulty(gs, j, p, q) == LET at == TwoPos(gs)[j] IN SubSeq(gs, 1, at) \o PauliAt(p, q) \o SubSeq(gs, at + 1, Len(gs))
Reveals(t, j, p, q, n, nc) == Corrected(ClDist(Faulty(t.gs, j, p, q), n, nc), t.postp)[1] < M \div 2
=============================================================================
