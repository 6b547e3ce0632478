---------------------------------- MODULE Ghz ----------------------------------
(* Entanglement circuits (C19): cat states grown along the edges of a coupling graph, *)
(* the multiple-quantum-coherence (MQC) and parity-oscillation (PO) experiments on     *)
(* them and the analysis helpers.                                                        *)
EXTENDS CharCirc

Adj(cm, a, b) == \E i \in 1..Len(cm) : cm[i] = <<a, b>> \/ cm[i] = <<b, a>>
NodesOf(cm) == UNION {{cm[i][1], cm[i][2]} : i \in 1..Len(cm)}
Nbrs(cm, a) == {b \in NodesOf(cm) : Adj(cm, a, b)}
(* ---- a tier schedule: a sequence of steps, each a sequence of <<control, target>> ------ *)
Tier0 == [cat |-> {}, ok |-> TRUE]
AddTier(cm, s, t) ==          \* s.cat: qubits in the cat state so far (initially the root)
   LET used == [i \in 1..(2 * Len(t)) |-> IF i % 2 = 1 THEN t[(i + 1) \div 2][1] ELSE t[i \div 2][2]] IN
   [ok |-> /\ s.ok
           /\ \A i \in 1..Len(t) : t[i][1] \in s.cat /\ t[i][2] \notin s.cat /\ Adj(cm, t[i][1], t[i][2])
           /\ Cardinality({used[i] : i \in 1..Len(used)}) = Len(used),
    cat |-> s.cat \cup {t[i][2] : i \in 1..Len(t)}]
RunTiers(cm, root, ts) == FoldLeft(LAMBDA s, t : AddTier(cm, s, t), [cat |-> {root}, ok |-> TRUE], ts)
(* ---- the cat state on a set of qubits ------------------------------------------------------ *)
MaskOf(S) == SumOver(S, Pow2)
CatGates(root, edges) == <<U1(uH, root)>> \o [i \in 1..Len(edges) |-> CXg(edges[i][1], edges[i][2])]
IsCat(s, S) == /\ s.v[1] # ZeroA /\ s.v[1] = s.v[MaskOf(S) + 1]
               /\ \A i \in 1..Len(s.v) : i \notin {1, MaskOf(S) + 1} => s.v[i] = ZeroA
(* ---- outcome distributions (angles in turns, micros) ---------------------------------------- *)
Wt(v, n) == SumSeq([k \in 1..n |-> Bit(v, k - 1)])
CosN(n, turn) == CosT((n * turn) % M)
PMqc(v, n, turn) == IF v = 0 THEN (M + CosN(n, turn)) \div 2 ELSE IF v = 1 THEN (M - CosN(n, turn)) \div 2 ELSE 0
PPo(v, n, turn) == (IF (n - Wt(v, n)) % 2 = 0 THEN M + CosN(n, turn) ELSE M - CosN(n, turn)) \div Pow2(n)
PCat(v, n) == IF v = 0 \/ v = Pow2(n) - 1 THEN M \div 2 ELSE 0
Law(kind, v, n, turn) == CASE kind = "cat" -> PCat(v, n) [] kind = "mqc" -> PMqc(v, n, turn) [] kind = "po" -> PPo(v, n, turn)
(* only q[0] measured: its marginal                                                             *)
Law1(kind, v, n, turn) == IF kind = "mqc" THEN PMqc(v, n, turn) ELSE M \div 2
(* probability of clbit value v after the logged (numeric) circuit on w device qubits            *)
OutProb(s, gs, v) == SumSeq([i \in 1..Len(s.v) |-> IF ClVal(gs, i - 1) = v THEN CAbs2(s.v[i]) ELSE 0])
(* ---- analysis ----------------------------------------------------------------------------------- *)
ParitySum(tab) == SumSeq([i \in 1..Len(tab) |-> IF Parity(tab[i][1]) = 0 THEN tab[i][2] ELSE -tab[i][2]])
(* k-th Fourier coefficient of y (micros), divided by the length                                  *)
Four(y, k) == LET n == Len(y)
                  re == SumSeq([j \in 1..n |-> Mul(y[j], CosT((((k * (j - 1)) % n) * M) \div n))])
                  im == SumSeq([j \in 1..n |-> Mul(y[j], SinT((((k * (j - 1)) % n) * M) \div n))]) IN
              <<re \div n, -(im \div n)>>
IsAbs(a, z, tol) == a >= 0 /\ Near(Mul(a, a), CAbs2(z), tol)
=============================================================================
