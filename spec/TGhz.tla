---------------------------------- MODULE TGhz ----------------------------------
EXTENDS Ghz, TraceBase
VARIABLES c
vars == <<l, c>>
Init == l = 1 /\ c = <<>>
Keep == UNCHANGED c
Begin == c' = Ev
(* tiers: << <<c, t>>, ... >> per step; err[i] = <<a, b, error>> of the couplings              *)
ErrOf(errs, a, b) == LET i == CHOOSE i \in 1..Len(errs) : {errs[i][1], errs[i][2]} = {a, b} IN errs[i][3]
ParentEdges(ts, p) == LET es == FlattenSeq(ts) IN SelectSeq(es, LAMBDA e : e[1] = p)
Tiers == LET root == Ev.tiers[1][1][1]  r == RunTiers(c.cm, root, Ev.tiers) IN
   Keep /\ Judge(<<
   <<"starts_at_a_most_connected_qubit", \A a \in NodesOf(c.cm) : Cardinality(Nbrs(c.cm, a)) <= Cardinality(Nbrs(c.cm, root))>>,
   <<"steps_are_disjoint_allowed_pairs_from_the_entangled_set", r.ok>>,
   <<"every_qubit_is_reached", r.cat = NodesOf(c.cm)>>,
   <<"steps_numbered_consecutively", Ev.keys = [i \in 1..Len(Ev.tiers) |-> i - 1]>>,
   <<"better_couplings_first", Ev.sorted => \A p \in NodesOf(c.cm) : LET es == ParentEdges(Ev.tiers, p) IN
        \A i, j \in 1..Len(es) : i < j => ErrOf(Ev.errs, es[i][1], es[i][2]) <= ErrOf(Ev.errs, es[j][1], es[j][2])>> >>)
(* lay[i]: device qubit of GHZ qubit i-1; gates on device qubits (0..c.nv-1)                      *)
Phys == {Ev.lay[i] : i \in 1..Len(Ev.lay)}
TwoQ == SelectSeq(Ev.gates, LAMBDA g : g.g \in {"CX", "CZ", "SW"})
Prepare == LET s == Run(Ket(c.nv, 0), Ev.gates) IN
   Keep /\ Judge(<<
   <<"announced_qubits", Len(Ev.lay) = Ev.n /\ Cardinality(Phys) = Ev.n /\ Phys \subseteq NodesOf(c.cm)>>,
   <<"known_gates", AllKnown(Ev.gates)>>,
   <<"only_allowed_two_qubit_gates", \A i \in 1..Len(TwoQ) : TwoQ[i].g = "CX" /\
        IF Ev.directed THEN \E k \in 1..Len(c.cm) : c.cm[k] = TwoQ[i].q ELSE Adj(c.cm, TwoQ[i].q[1], TwoQ[i].q[2])>>,
   <<"prepares_the_ghz_state", AllKnown(Ev.gates) => IsCat(s, Phys)>> >>)
Experiment == LET s == CRun(CKet(c.nv, 0), Ev.gates)  ms == Measures(Ev.gates) IN
   Keep /\ Judge(<<
   <<"announced_qubits", Len(Ev.lay) = Ev.n /\ Cardinality(Phys) = Ev.n>>,
   <<"only_allowed_two_qubit_gates", \A i \in 1..Len(TwoQ) : TwoQ[i].g = "CX" /\
        IF Ev.directed THEN \E k \in 1..Len(c.cm) : c.cm[k] = TwoQ[i].q ELSE Adj(c.cm, TwoQ[i].q[1], TwoQ[i].q[2])>>,
   <<"measured_qubits", /\ TerminalMeas(Ev.gates) /\ Ev.ncl = (IF Ev.full THEN Ev.n ELSE 1)
                        /\ Len(ms) = Ev.ncl
                        /\ \A i \in 1..Ev.ncl : \E k \in 1..Len(ms) : ms[k].c[1] = i - 1 /\ ms[k].q[1] = Ev.lay[i]>>,
   <<"outcome_distribution", /\ CKnown(Ev.gates)
        /\ \A v \in 0..(Pow2(Ev.ncl) - 1) : Near(OutProb(s, Ev.gates, v),
              IF Ev.full THEN Law(Ev.kind, v, Ev.n, Ev.turn) ELSE Law1(Ev.kind, v, Ev.n, Ev.turn), 200)>> >>)
Counts == Keep /\ Judge(<<
   <<"counts_in_binary_order", Len(Ev.ordered) = Pow2(Ev.n) /\ \A v \in 0..(Pow2(Ev.n) - 1) :
        Ev.ordered[v + 1] = CountOf(Ev.tab, BitsOf(v, Ev.n))>>,
   <<"composite_pauli_z", \A i, j \in 1..Pow2(Ev.n) : Ev.pz[i][j] =
        IF i # j THEN 0 ELSE IF Parity(BitsOf(i - 1, Ev.n)) = 0 THEN 1 ELSE -1>>,
   <<"parity_expectation", Ev.exp = ParitySum(Ev.tab)>> >>)
Fidelity == Keep /\ Judge(<<
   <<"fidelity_of_the_density_matrix", LET d == Ev.rho IN
        \* |a + b + x + y| / 2 with x, y the moduli of the corner coherences
        /\ IsAbs(Ev.x, d[3], 20) /\ IsAbs(Ev.y, d[4], 20)
        /\ LET sr == d[1][1] + d[2][1] + Ev.x + Ev.y  si == d[1][2] + d[2][2] IN
           Near(Mul(2 * Ev.f, 2 * Ev.f), Mul(sr, sr) + Mul(si, si), 60)>> >>)
Fourier == LET i0 == Four(Ev.y, 0)  in == Four(Ev.y, Ev.n)  i0m == Four(Ev.ym, 0)  inm == Four(Ev.ym, Ev.n) IN
   Keep /\ Judge(<<
   <<"fourier_components", CNear(Ev.In, in, 30) /\ CNear(Ev.Inm, inm, 30) /\
        (Ev.label = "mqc" => CNear(Ev.I0, i0, 30) /\ CNear(Ev.I0m, i0m, 30))>>,
   <<"mqc_lower_bound", Ev.label = "mqc" =>
        \* LB = 2 sqrt|In|:  (LB/2)^4 = |In|^2
        /\ IsAbs(Mul(Ev.LB \div 2, Ev.LB \div 2), in, 300) /\ IsAbs(Mul(Ev.LBm \div 2, Ev.LBm \div 2), inm, 300)>>,
   <<"mqc_upper_bound", Ev.label = "mqc" =>
        /\ Ev.UB >= Ev.LB \div 2 /\ Ev.UBm >= Ev.LBm \div 2
        /\ IsAbs(2 * Mul(Ev.UB - Ev.LB \div 2, Ev.UB - Ev.LB \div 2), i0, 600)
        /\ IsAbs(2 * Mul(Ev.UBm - Ev.LBm \div 2, Ev.UBm - Ev.LBm \div 2), i0m, 600)>>,
   <<"mqc_fidelity", Ev.label = "mqc" =>
        /\ Near(2 * Ev.F, Ev.P[1] + Ev.P[2] + Ev.LB, 8) /\ Near(2 * Ev.Fm, Ev.P[3] + Ev.P[4] + Ev.LBm, 8)>>,
   <<"po_fidelity", Ev.label = "po" =>
        /\ 2 * Ev.F >= Ev.P[1] + Ev.P[2] - 4 /\ 2 * Ev.Fm >= Ev.P[3] + Ev.P[4] - 4
        /\ IsAbs((2 * Ev.F - Ev.P[1] - Ev.P[2]) \div 2, in, 100) /\ IsAbs((2 * Ev.Fm - Ev.P[3] - Ev.P[4]) \div 2, inm, 100)>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "tiers" -> Tiers
             [] Ev.ev = "prepare" -> Prepare
             [] Ev.ev = "experiment" -> Experiment
             [] Ev.ev = "counts" -> Counts
             [] Ev.ev = "fidelity" -> Fidelity
             [] Ev.ev = "fourier" -> Fourier
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
