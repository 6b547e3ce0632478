------------------------------- MODULE TTomoCirc -------------------------------
EXTENDS TomoCirc, TraceBase
VARIABLES n, user, mq, pq, mls, pls
vars == <<l, n, user, mq, pq, mls, pls>>
Init == l = 1 /\ n = 0 /\ user = <<>> /\ mq = <<>> /\ pq = <<>> /\ mls = {} /\ pls = {}
Keep == UNCHANGED <<n, user, mq, pq, mls, pls>>
(* requested labels: list of tuples (given) or single-qubit labels (all products)      *)
Req(r, k) == IF r.kind = "tuples" THEN SetOf(r.v) ELSE IF r.kind = "none" THEN {<<>>}
             ELSE Product(r.v, k)
Begin == IF Ev.kind = "circ"
         THEN /\ n' = Ev.n /\ user' = Ev.user /\ mq' = Ev.mq /\ pq' = Ev.pq
              /\ mls' = Req(Ev.ml, Len(Ev.mq)) /\ pls' = Req(Ev.pl, Len(Ev.pq))
         ELSE Keep
Labels == Keep /\ Judge(<<
   <<"one_circuit_per_label", SetOf(Ev.labels) = pls \X mls>>,
   <<"no_duplicate_labels", Len(Ev.labels) = Cardinality(pls \X mls)>>,
   <<"caller_circuit_untouched", Ev.user = user /\ Ev.same>> >>)
Circ == Keep /\ Judge(<<
   <<"label_known", <<Ev.pl, Ev.ml>> \in pls \X mls>>,
   <<"prepares_runs_and_measures_label", CircuitOK(n, Ev.gates, user, Ev.pl, pq, Ev.ml, mq)>>,
   <<"tomography_bits_are_the_first_classical_bits", Ev.pos = [i \in 1..Len(mq) |-> i - 1]>>,
   <<"tomography_bit_i_reads_measured_qubit_i", ReadoutOK(Ev.gates, user, mq)>>,
   <<"caller_circuit_embedded_unchanged",
      Embedded(Ev.gates, user, SetOf(pq), SetOf(mq))>> >>)
Reject == Keep /\ Judge(<< <<"invalid_request_rejected", Ev.got = "err">> >>)
(* operators attached to labels agree with the circuits                                 *)
PrepMat == Keep /\ Judge(<< <<"preparation_operator_is_prepared_state",
     NearVec(Ev.m, Rho1(CRun(CKet(1, 0), PrepGates(Ev.label, 0))), 20)>>,
     <<"preparation_circuit_prepares_it",
     CKnown(Ev.gates) /\ NearVec(Rho1(CRun(CKet(1, 0), Ev.gates)), Rho1(CRun(CKet(1, 0), PrepGates(Ev.label, 0))), 40)>> >>)
MeasMat == Keep /\ Judge(<< <<"measurement_operator_is_outcome_projector",
     \A lab \in AllPrep : CNear(Tr2(Ev.m, Rho1(CRun(CKet(1, 0), PrepGates(lab, 0)))),
        <<ProbVal(Run(Ket(1, 0), PrepGates(lab, 0) \o MeasGates(Ev.label, 0)), Ev.outcome), 0>>, 20)>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "labels" -> Labels
             [] Ev.ev = "circuit" -> Circ
             [] Ev.ev = "reject" -> Reject
             [] Ev.ev = "prepmat" -> PrepMat
             [] Ev.ev = "measmat" -> MeasMat
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
