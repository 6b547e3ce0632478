-------------------------------- MODULE TRBUtils --------------------------------
EXTENDS RBUtils, TraceBase
VARIABLES c
vars == <<l, c>>
Init == l = 1 /\ c = <<>>
Keep == UNCHANGED c
(* table: sequence of [q, g: <<name, value>>...]                                        *)
GpcEv == Keep /\ Judge(<<
   <<"counts_reported_for_requested_qubits_and_gates",
       /\ Len(Ev.tab) = Len(Ev.qubits)
       /\ \A i \in 1..Len(Ev.tab) : {Ev.tab[i].g[k][1] : k \in 1..Len(Ev.tab[i].g)}
                                       = {Ev.basis[k] : k \in 1..Len(Ev.basis)}
       /\ {Ev.tab[i].q : i \in 1..Len(Ev.tab)} = {Ev.qubits[i] : i \in 1..Len(Ev.qubits)}>>,
   <<"gates_per_clifford_is_count_over_number_of_cliffords",
       \A i \in 1..Len(Ev.tab) : \A k \in 1..Len(Ev.tab[i].g) :
          Near(Ev.tab[i].g[k][2], Gpc(Ev.seeds, Ev.lens, Ev.tab[i].g[k][1], Ev.tab[i].q), 2)>> >>)
CountEv == Keep /\ Judge(<<
   <<"count_gates_counts_each_circuit_qubit_and_gate",
       /\ Len(Ev.n) = Len(Ev.circs)
       /\ \A i \in 1..Len(Ev.circs), j \in 1..Len(Ev.qubits), k \in 1..Len(Ev.basis) :
          Ev.n[i][j][k] = CountG(Ev.circs[i], Ev.basis[k], Ev.qubits[j])>> >>)
T == 25
Epg1Ev == Keep /\ Judge(<<
   <<"epg_1q_formula", /\ Near(Get(Ev.epg, "u1"), 0, 1)
        /\ Near(Get(Ev.epg, "u2"), Epg1Base(Ev.mix, Ev.epc), 5)
        /\ Near(Get(Ev.epg, "u3"), 2 * Epg1Base(Ev.mix, Ev.epc), 8)>>,
   <<"epg_1q_inverts_epc_to_first_order", LET e == Epc1(Ev.mix, Ev.epg) IN
        Near(e, Ev.epc, Mul(Ev.epc, Ev.epc + Get(Ev.epg, "u3")) * 2 + T)>> >>)
Epc1Ev == Keep /\ Judge(<< <<"epc_1q_formula", Near(Ev.epc, Epc1(Ev.mix, Ev.errs), T)>> >>)
Epg2Ev == Keep /\ Judge(<< <<"epg_2q_formula",
        Near(Ev.epg, Epg2(Ev.mix0, Ev.mix1, Ev.e0, Ev.e1, Ev.epc, Ev.name), 2 * T)>> >>)
Epc2Ev == Keep /\ Judge(<< <<"epc_2q_formula",
        Near(Ev.epc, Epc2(Ev.mix0, Ev.mix1, Ev.e0, Ev.e1, Ev.epg, Ev.name), 2 * T)>>,
        <<"inverse_of_epg_2q_for_one_gate", Get(Ev.mix0, Ev.name) = M => Near(Ev.back, Ev.epg, 2 * T)>> >>)
TwoQEv == Keep /\ Judge(<< <<"two_qubit_clifford_error_formula",
        Near(Ev.epc, Epc2(Ev.mix0, Ev.mix1, Ev.e0, Ev.e1, Ev.epg, "cx"), 2 * T)>> >>)
CohEv == Keep /\ Judge(<< <<"coherence_limit_formula",
        Near(Ev.v, IF Len(Ev.r1) = 1 THEN Coh1(Ev.r1[1], Ev.r2[1]) ELSE Coh2(Ev.r1, Ev.r2), T)>> >>)
RejEv == Keep /\ Judge(<< <<"invalid_input_rejected_" \o Ev.what, Ev.got \in {"QiskitError", "ValueError"}>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> c' = Ev
             [] Ev.ev = "gpc" -> GpcEv
             [] Ev.ev = "count" -> CountEv
             [] Ev.ev = "epg1" -> Epg1Ev
             [] Ev.ev = "epc1" -> Epc1Ev
             [] Ev.ev = "epg2" -> Epg2Ev
             [] Ev.ev = "epc2" -> Epc2Ev
             [] Ev.ev = "twoq" -> TwoQEv
             [] Ev.ev = "coh" -> CohEv
             [] Ev.ev = "reject" -> RejEv
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
