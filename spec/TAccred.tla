--------------------------------- MODULE TAccred ---------------------------------
EXTENDS Accred, TraceBase
VARIABLES c, dist
vars == <<l, c, dist>>
Init == l = 1 /\ c = <<>> /\ dist = <<>>
Keep == UNCHANGED <<c, dist>>
Tol == 1500
Orig == /\ UNCHANGED c /\ dist' = ClDist(Ev.gs, Ev.n, Ev.nc)
        /\ Judge(<< <<"target_executable", CKnown(Ev.gs)>> >>)
CircEv == LET K == CKnown(Ev.gs)
              D == IF K THEN Corrected(ClDist(Ev.gs, Ev.n, Ev.nc), Ev.postp) ELSE <<>>
          IN Keep /\ Judge(<<
   <<"only_gates_and_terminal_measurements", K /\ TerminalMeas(Ev.gs)>>,
   <<"string_has_one_bit_per_classical_bit", Len(Ev.postp) = Ev.nc /\ \A i \in 1..Len(Ev.postp) : Ev.postp[i] \in {0, 1}>>,
   <<"corrected_target_has_the_original_distribution", Ev.target => NearSeq(D, dist, Tol)>>,
   <<"corrected_trap_is_all_zeros", ~Ev.target => D[1] >= M - Tol>>,
   <<"only_the_requested_two_qubit_gate", \A i \in 1..Len(Ev.gs) : Len(Ev.gs[i].q) = 2 => Ev.gs[i].g \in {c.two, "B"}>>,
   <<"two_qubit_gates_on_coupled_qubits", c.coupling # <<>> => \A i \in 1..Len(Ev.gs) :
        Ev.gs[i].g \in {"CX", "CZ"} => \E k \in 1..Len(c.coupling) :
             {c.coupling[k][1], c.coupling[k][2]} = {Ev.gs[i].q[1], Ev.gs[i].q[2]}>> >>)
Batch == Keep /\ Judge(<<
   <<"one_target_and_the_requested_traps", Ev.len = Ev.traps + 1 /\ Ev.lenp = Ev.len>>,
   <<"position_in_range", Ev.v >= 0 /\ Ev.v <= Ev.traps>>,
   <<"same_layers_in_target_and_traps", \A i \in 1..Len(Ev.shapes) : Ev.shapes[i] = Ev.shapes[1]>> >>)
(* many batches of one target: the random choices really vary                          *)
Stat == Keep /\ Judge(<<
   <<"position_varies", {Ev.vs[i] : i \in 1..Len(Ev.vs)} = 0..Ev.traps>>,
   <<"strings_vary", \A b \in 1..Ev.nc, t \in {0, 1} :
        {Ev.bits[i][2][b] : i \in {k \in 1..Len(Ev.bits) : Ev.bits[k][1] = t}} = {0, 1}>>,
   <<"same_seed_same_batch", Ev.same>>,
   <<"pads_vary", Ev.distinct > Ev.traps + 1>> >>)
(* pads: number of different one-qubit operations seen per qubit in the first and in a middle layer, *)
(* for a target whose own operations are generic: Z^a, operation, Pauli / Pauli, operation, Pauli     *)
Pads == Keep /\ Judge(<<
   <<"pads_of_the_first_layer_are_all_paulis", \A q \in 1..Len(Ev.first) : Ev.first[q] > 4>>,
   <<"pads_of_a_middle_layer_are_all_paulis", \A q \in 1..Len(Ev.mid) : Ev.mid[q] > 8>>,
   <<"batches_without_a_seed_differ", Ev.unseeded > 1>> >>)
Detect == LET K == \A i \in 1..Len(Ev.ts) : CKnown(Ev.ts[i].gs) IN Keep /\ Judge(<<
   <<"only_gates_and_terminal_measurements", K>>,
   <<"traps_reveal_every_single_pauli_fault", K => \A j \in 1..Len(TwoPos(Ev.ts[1].gs)), q \in 0..(Ev.n - 1), p \in {"X", "Y", "Z"} :
        \E i \in 1..Len(Ev.ts) : Reveals(Ev.ts[i], j, p, q, Ev.n, Ev.n)>> >>)
Correct == Keep /\ Judge(<<
   <<"counts_shifted_by_the_string",
      /\ Len(Ev.out) = Len(Ev.inp)
      /\ \A i \in 1..Len(Ev.inp) : \E k \in 1..Len(Ev.out) :
            /\ Ev.out[k][2] = Ev.inp[i][2]
            /\ Len(Ev.out[k][1]) = Len(Ev.inp[i][1])
            /\ \A b \in 1..Len(Ev.postp) : Ev.out[k][1][b] = Xor2(Ev.inp[i][1][b], Ev.postp[b])>> >>)
Reject == Keep /\ Judge(<< <<"rejected_" \o Ev.what, Ev.got # "ok">> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> c' = Ev /\ dist' = <<>>
             [] Ev.ev = "orig" -> Orig
             [] Ev.ev = "circ" -> CircEv
             [] Ev.ev = "batch" -> Batch
             [] Ev.ev = "stat" -> Stat
             [] Ev.ev = "pads" -> Pads
             [] Ev.ev = "detect" -> Detect
             [] Ev.ev = "correct" -> Correct
             [] Ev.ev = "reject" -> Reject
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
