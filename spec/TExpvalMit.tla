------------------------------ MODULE TExpvalMit ------------------------------
EXTENDS ExpvalMit, TraceBase
VARIABLES kind, n, A, cal, mit, mq
vars == <<l, kind, n, A, cal, mit, mq>>
Init == l = 1 /\ kind = "none" /\ n = 0 /\ A = <<>> /\ cal = <<>> /\ mit = <<>> /\ mq = <<>>
Keep == UNCHANGED <<kind, n, A, cal, mit, mq>>
Begin == /\ kind' = Ev.kind /\ n' = Ev.n /\ cal' = <<>> /\ mit' = <<>> /\ mq' = <<>>
         /\ A' = IF Ev.kind \in {"complete", "tensored"} THEN Ev.mats ELSE <<>>
AMat(qs) == IF kind = "complete" THEN SubFull(A, qs) ELSE SubLocal(A, qs)
(* calibration circuits                                                              *)
Circuits == Keep /\ Judge(<< <<"calibration_labels",
     Ev.labels = IF Ev.custom THEN Ev.want ELSE StdLabels(n, Ev.method)>>,
     <<"method_recorded", \A i \in 1..Len(Ev.methods) : Ev.methods[i] = Ev.method>> >>)
Circ == Keep /\ Judge(<< <<"circuit_prepares_and_reads_label", Calibrates(n, Ev.val, Ev.gates)>> >>)
(* fitting: cal becomes known; the fitted matrices become the specification's A        *)
FitOk == LET can == IF Ev.method = "complete" THEN CanFull(Ev.cal, n) ELSE CanLocal(Ev.cal, n)
             want == IF ~can THEN <<>> ELSE IF Ev.method = "complete" THEN FitFull(Ev.cal, n)
                     ELSE [q \in 1..n |-> FitLocal(Ev.cal, n, q - 1)]
         IN  /\ kind' = Ev.method /\ A' = want /\ cal' = Ev.cal /\ UNCHANGED <<n, mit, mq>>
             /\ Judge(<< <<"fit_needs_sufficient_data", can>> >>)
FitErr == Keep /\ Judge(<< <<"fit_refused_despite_data",
             ~(IF Ev.method = "complete" THEN CanFull(Ev.cal, n) ELSE CanLocal(Ev.cal, n))>> >>)
(* no mitigator before the first fit                                                    *)
Unfitted == Keep /\ Judge(<< <<"mitigator_before_fitting_is_an_error", Ev.got # "ok">> >>)
(* matrices of listed qubits                                                            *)
Assign == Keep /\ Judge(<< <<"assignment_matrix_of_listed_qubits", NearMat(Ev.mat, AMat(Ev.qs), 12)>>,
     <<"assignment_fidelity_is_mean_diagonal", Near(Ev.fid, TraceMean(AMat(Ev.qs)), 12)>> >>)
Mitig == /\ mit' = Ev.mat /\ mq' = Ev.qs /\ UNCHANGED <<kind, n, A, cal>>
         /\ Judge(<< <<"mitigation_matrix_inverts_assignment",
               Len(Ev.mat) = Dim(Len(Ev.qs)) /\ IsIdentity(MatMul(AMat(Ev.qs), Ev.mat), 120)>> >>)
(* overhead = ceil(gamma^2), gamma = largest column sum of |mitigation|; mq = Ev.qs        *)
Over == Keep /\ Judge(<< <<"mitigation_overhead",
     LET g == Gamma(mit) IN /\ mq = Ev.qs
        /\ Ev.overhead * M + 600 >= Mul(g, g) /\ (Ev.overhead - 1) * M - 600 < Mul(g, g)>>,
     <<"required_shots", LET g2 == Mul(Gamma(mit), Gamma(mit))  u == M \div (4 * Ev.inv * Ev.inv)
                         IN  Ev.req >= (g2 - 600) \div u /\ Ev.req <= ((g2 + 600) \div u) + 2>>,
     <<"stddev_bound", IsSqrt(Div(Ev.bound, Gamma(mit)), Micro(1, Ev.shots), 20)>> >>)
(* expectation values: mitigated uses the last logged mitigation matrix (same qubits)        *)
Expval == LET c == IF Ev.mitigated THEN Coeffs(mit, Ev.diag) ELSE Plain(Ev.diag)
              p == PVec(Ev.tab, Ev.cl)
          IN  Keep /\ Judge(<< <<"driver_order", Ev.mitigated => mq = Ev.qs>>,
                <<"default_observable_is_parity", Ev.isdefault => Ev.diag = ZDiag(Len(Ev.cl))>>,
                <<"expectation_value", ValOK(Ev.val, c, p)>>,
                <<"standard_deviation", DevOK(Ev.dev, c, p, Total(Ev.tab))>>,
                <<"input_unchanged", Ev.tab = Ev.after>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "circuits" -> Circuits
             [] Ev.ev = "circuit" -> Circ
             [] Ev.ev = "fit" -> FitOk
             [] Ev.ev = "unfitted" -> Unfitted
             [] Ev.ev = "fit_err" -> FitErr
             [] Ev.ev = "assign" -> Assign
             [] Ev.ev = "mit" -> Mitig
             [] Ev.ev = "over" -> Over
             [] Ev.ev = "expval" -> Expval
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
