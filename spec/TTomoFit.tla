-------------------------------- MODULE TTomoFit --------------------------------
EXTENDS TomoFit, TraceBase
VARIABLES st, src
vars == <<l, st, src>>
Init == l = 1 /\ st = <<>> /\ src = <<>>
Keep == UNCHANGED <<st, src>>
Begin == st' = <<>> /\ src' = (IF "src" \in DOMAIN Ev THEN Ev.src ELSE <<>>)
Add == /\ st' = AddCall(st, Ev.asked, Ev.results) /\ UNCHANGED src
       /\ Judge(<< <<"missing_circuit_accepted", \A i \in 1..Len(Ev.asked) : Has(Ev.results, Ev.asked[i])>>,
                   <<"data_is_tally_of_tomography_bits_per_label", SameStore(st', Ev.data)>>,
                   <<"results_unchanged", Ev.same>> >>)
AddErr == Keep /\ Judge(<< <<"data_refused_although_present",
                 ~\A i \in 1..Len(Ev.asked) : Has(Ev.results, Ev.asked[i])>>,
                 <<"missing_circuit_error_kind", Ev.kind = "QiskitError">> >>)
Basic(d, tr, tol) == <<
   <<"fit_has_right_shape", Square(Ev.mat, d)>>,
   <<"fit_hermitian", Square(Ev.mat, d) /\ Hermitian(Ev.mat, tol)>>,
   <<"fit_trace", Square(Ev.mat, d) /\ Near(CTrace(Ev.mat), tr, tol * d)>>,
   <<"fit_positive", Square(Ev.mat, d) /\ (Ev.psd => PSD(Ev.mat, 6000))>> >>
(* state fits: exact -> the source state; otherwise closed form / optimality                 *)
StateFit == LET n == Ev.n  d == Pow2(n)  tol == Ev.tol IN
   Keep /\ Judge(Basic(d, M, tol) \o
     IF ~Square(Ev.mat, d) THEN <<>>
     ELSE IF Ev.exact THEN << <<"fit_returns_the_state",
             NearCMat(Ev.mat, Mix(LAMBDA w : RhoOf(n, w), src), tol)>> >>
     ELSE IF Ev.weighted /\ ~Ev.psd THEN << <<"weighted_least_squares_optimal", NormalEq(n, st, Ev.mat, TRUE, Ev.beta2, 6000)>> >>
     ELSE IF ~Ev.weighted /\ ~Ev.psd THEN << <<"linear_inversion_value", NearCMat(Ev.mat, LinInv(n, st), 60)>> >>
     ELSE IF Ev.method = "cvx" THEN << <<"convex_fit_is_the_best_state", Optimal(n, st, Ev.mat, Ev.weighted, 1, IF Ev.weighted THEN 8 ELSE 1, Ev.kkt)>> >>
     ELSE IF ~Ev.weighted THEN << <<"closest_positive_state", ClosestPSD(LinInv(n, st), Ev.mat, 4000)>> >>
     ELSE <<>>)
(* a constrained fit of data whose unconstrained fit (same weights) is positive is that fit, rescaled *)
Rescaled == LET d == Len(Ev.raw)  t == CTrace(Ev.raw)
                pos == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN <<Ev.raw[i][j][1] - 8000, Ev.raw[i][j][2]>> ELSE Ev.raw[i][j]]] IN
   Keep /\ Judge(<< <<"positive_solution_is_only_rescaled", (Square(Ev.mat, d) /\ Square(Ev.raw, d) /\ t > M \div 2 /\ PSD(pos, 0)) =>
       \A i, j \in 1..d : \A k \in 1..2 : Near(Mul(Ev.mat[i][j][k], t), Mul(Ev.raw[i][j][k], Ev.trace), 60)>> >>)
(* trace preserving: tracing the (low) output index of the Choi matrix leaves the identity      *)
TP(m, n, tol) == LET d == Pow2(n) IN \A i, j \in 0..(d - 1) :
   /\ Near(SumSeq([a \in 1..d |-> m[i * d + a][j * d + a][1]]), IF i = j THEN M ELSE 0, tol)
   /\ Near(SumSeq([a \in 1..d |-> m[i * d + a][j * d + a][2]]), 0, tol)
ProcFit == LET n == Ev.n  d == Pow2(2 * n)  tol == Ev.tol IN
   Keep /\ Judge(Basic(d, Pow2(n) * M, tol)
     \o << <<"constrained_fit_is_trace_preserving", (Square(Ev.mat, d) /\ Ev.method = "cvx") => TP(Ev.mat, n, tol)>> >> \o
     IF ~Square(Ev.mat, d) \/ ~Ev.exact THEN <<>>
     ELSE << <<"fit_returns_the_channel", NearCMat(Ev.mat, Mix(LAMBDA w : ChoiOf(n, w), src), tol)>> >>)
Margin == Keep /\ Judge(<<
   <<"marginal_refers_to_selected_bits", SameCounts(MargOn(Ev.tab, Ev.cl), Ev.out)>>,
   <<"marginal_key_width", \A b \in Keys(Ev.out) : Len(b) = Len(Ev.cl)>>,
   <<"zero_outcomes_padded", Ev.pad => Keys(Ev.out) = {BitsOf(v, Len(Ev.cl)) : v \in 0..(Pow2(Len(Ev.cl)) - 1)}>>,
   <<"input_unchanged", Ev.same>> >>)
Combine == Keep /\ Judge(<<
   <<"combined_counts_are_sums", SameCounts(Ev.a \o Ev.b, Ev.out) /\ NoDupKeys(Ev.out)>>,
   <<"input_unchanged", Ev.same>> >>)
Expect == Keep /\ Judge(<<
   <<"expectation_keys", Keys(Ev.out) = {BitsOf(v, Ev.n) : v \in 0..(Pow2(Ev.n) - 1)} /\ NoDupKeys(Ev.out)>>,
   <<"expectation_values", \A i \in 1..Len(Ev.out) : Len(Ev.out[i][1]) = Ev.n
                              /\ Ev.out[i][2] = ExpCount(Ev.tab, Ev.out[i][1])>>,
   <<"input_unchanged", Ev.same>> >>)
CountKeys == Keep /\ Judge(<< <<"count_keys_in_order",
     Ev.out = [v \in 1..Pow2(Ev.n) |-> BitsOf(v - 1, Ev.n)]>> >>)
Reject == Keep /\ Judge(<< <<"invalid_request_rejected", Ev.got = "err">> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "add" -> Add
             [] Ev.ev = "add_err" -> AddErr
             [] Ev.ev = "rescaled" -> Rescaled
             [] Ev.ev = "statefit" -> StateFit
             [] Ev.ev = "procfit" -> ProcFit
             [] Ev.ev = "marginal" -> Margin
             [] Ev.ev = "combine" -> Combine
             [] Ev.ev = "expect" -> Expect
             [] Ev.ev = "count_keys" -> CountKeys
             [] Ev.ev = "reject" -> Reject
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
