------------------------------- MODULE TomoCirc -------------------------------
(* Tomography circuits: label -> preparation of prepared qubits, the caller's     *)
(* circuit, measurement of measured qubits.  Qubits are indices into the caller's  *)
(* circuit; tomography bit i is classical bit i, the caller's own bits are 100+i.  *)
EXTENDS CSim
MLabels == <<"X", "Y", "Z">>
PLabels == <<"Zp", "Zm", "Xp", "Yp">>
SLabels == <<"S0", "S1", "S2", "S3">>
AllPrep == {"Xp", "Xm", "Yp", "Ym", "Zp", "Zm"}
(* |S> = (1, sqrt2 e^{i f})/sqrt3 : columns (a, b e^{if}), (b, -a e^{if}), f = 0, -2pi/3, 2pi/3  *)
SicA == 577350
SicB == 816497
SicPh(lab) == CASE lab = "S1" -> <<M, 0>> [] lab = "S2" -> <<-500000, -866025>>
                [] lab = "S3" -> <<-500000, 866025>>
SicMat(lab) == <<<<SicA, 0>>, <<SicB, 0>>, CMul(<<SicB, 0>>, SicPh(lab)), CMul(<<-SicA, 0>>, SicPh(lab))>>
(* the states, as gates from |0>                                                    *)
PrepGates(lab, q) == CASE lab \in {"Zp", "S0"} -> <<>>
   [] lab = "Zm" -> <<U1(uX, q)>>
   [] lab = "Xp" -> <<U1(uH, q)>>
   [] lab = "Xm" -> <<U1(uX, q), U1(uH, q)>>
   [] lab = "Yp" -> <<U1(uH, q), U1(uS, q)>>
   [] lab = "Ym" -> <<U1(uX, q), U1(uH, q), U1(uS, q)>>
   [] lab \in {"S1", "S2", "S3"} -> <<[g |-> "V", q |-> <<q>>, m |-> SicMat(lab)]>>
MeasGates(lab, q) == CASE lab = "Z" -> <<>>
   [] lab = "X" -> <<U1(uH, q)>>
   [] lab = "Y" -> <<U1(uSdg, q), U1(uH, q)>>
Preps(pl, pq) == FlattenSeq([i \in 1..Len(pl) |-> PrepGates(pl[i], pq[i])])
Rots(ml, mq) == FlattenSeq([i \in 1..Len(ml) |-> MeasGates(ml[i], mq[i])])
Unitary(gs) == SelectSeq(gs, LAMBDA g : g.g \notin {"M", "B"})
(* all label tuples: product of single-qubit labels                                   *)
Product(labs, n) == [1..n -> {labs[i] : i \in 1..Len(labs)}]
(* outcome statistics of a circuit on n qubits = those of  prep; user; rotation        *)
SameStats(n, gs, want) ==
   IF AllKnown(gs) /\ AllKnown(want)
   THEN LET a == Run(Ket(n, 0), gs)  b == Run(Ket(n, 0), want) IN
        a.k = b.k /\ \A i \in 1..Len(a.v) : NormA(a.v[i]) = NormA(b.v[i])
   ELSE CKnown(gs) /\ LET a == CRun(CKet(n, 0), gs)  b == CRun(CKet(n, 0), want) IN
        \A i \in 1..Len(a.v) : Near(CAbs2(a.v[i]), CAbs2(b.v[i]), 400)
OnlyOn(gs, S) == \A i \in 1..Len(gs) : gs[i].g = "B" \/ \A j \in 1..Len(gs[i].q) : gs[i].q[j] \in S
(* the caller's gates occur as one block, with gates on prepared qubits before it and    *)
(* gates on measured qubits after it                                                      *)
Embedded(gs, user, P, Q) == LET u == Len(user) IN
   \E k \in 0..(Len(gs) - u) :
      /\ OnlyOn(SubSeq(gs, 1, k), P) /\ SubSeq(gs, k + 1, k + u) = user
      /\ OnlyOn(SubSeq(gs, k + u + 1, Len(gs)), Q)
MeasPairs(gs) == {<<g.q[1], g.c[1]>> : g \in {Measures(gs)[i] : i \in 1..Len(Measures(gs))}}
Pairs(mq) == {<<mq[i], i - 1>> : i \in 1..Len(mq)}
SetOf(s) == {s[i] : i \in 1..Len(s)}
CircuitOK(n, gs, user, pl, pq, ml, mq) ==
   SameStats(n, Unitary(gs), Preps(pl, pq) \o Unitary(user) \o Rots(ml, mq))
ReadoutOK(gs, user, mq) == /\ MeasPairs(gs) = MeasPairs(user) \cup Pairs(mq)
                           /\ Len(Measures(gs)) = Len(Measures(user)) + Len(mq)
                           /\ TerminalMeas(SelectSeq(gs, LAMBDA g : g.g # "M" \/ g.c[1] < 100))
=============================================================================
