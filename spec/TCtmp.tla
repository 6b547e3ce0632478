---------------------------------- MODULE TCtmp ----------------------------------
(* episode: n, gens (in use), rates (micros, <<>> when they come from calibration data),  *)
(* cal; model state: the rates of the mitigator                                            *)
EXTENDS Ctmp, TraceBase
VARIABLES p, rs, Gm
vars == <<l, p, rs, Gm>>
Init == l = 1 /\ p = <<>> /\ rs = <<>> /\ Gm = <<>>
Keep == UNCHANGED <<p, rs, Gm>>
All(n) == [i \in 1..n |-> i - 1]
(* rates below 1e-5 are taken as zero                                                        *)
Cut(r) == IF r <= 10 THEN 0 ELSE r
Begin == /\ p' = Ev
         /\ rs' = IF Ev.rates # <<>> THEN Ev.rates
                  ELSE LET Gs == TLCEval([c \in {Ev.locals[i] : i \in 1..Len(Ev.locals)} |-> LocalG(Ev.cal, Ev.n, c)]) IN
                       TLCEval([k \in 1..Len(Ev.gens) |-> Cut(RateFrom(Gs, Ev.n, Ev.gens[k]))])
         /\ Gm' = GenMat(Ev.gens, rs', All(Ev.n))
GOf(qs) == IF qs = All(p.n) THEN Gm ELSE GenMat(p.gens, rs, qs)
Gen == Keep /\ Judge(<<
   <<"generator_matrix_is_the_sum_of_rates_times_generators_on_the_qubits", NearN(Ev.mat, GOf(Ev.qs), 60)>>,
   <<"generator_columns_sum_to_zero", \A j \in 1..Len(Ev.mat) : Near(SumSeq([i \in 1..Len(Ev.mat) |-> Ev.mat[i][j]]), 0, 20)>>,
   <<"strength_is_the_largest_exit_rate", Near(Ev.strength, Strength(GOf(Ev.qs)), 80)>> >>)
Assign == LET g == GOf(Ev.qs)  a == ExpM(g) IN Keep /\ Judge(<<
   <<"assignment_matrix_is_the_exponential", NearN(Ev.a, a, 150) /\ Stochastic(Ev.a, 30)>>,
   <<"mitigation_matrix_is_its_inverse", NearN(Ev.inv, ExpM(Neg(g)), 150) /\ NearN(MMN(Ev.inv, Ev.a), EyeN(Len(a)), 100)>>,
   <<"fidelity_is_the_mean_diagonal", Near(Ev.fid, SumSeq([i \in 1..Len(a) |-> a[i][i]]) \div Len(a), 150)>> >>)
Over1 == LET ga == Strength(Gm)  c2 == Exp(4 * ga)  tol == 3 + (c2 \div 2000) IN Keep /\ Judge(<<
   <<"overhead_is_the_square_of_the_sampling_cost_rounded_up", Ev.overhead * M >= c2 - tol /\ Ev.overhead * M < c2 + M + tol>>,
   <<"error_bound_is_the_sampling_cost_over_root_shots", Near(Mul(Ev.bound, Ev.root * M), Exp(2 * ga), 50 + (Exp(2 * ga) \div 2000))>>,
   <<"required_shots_are_four_overheads_over_the_squared_tolerance", Ev.req >= ((c2 - tol) \div 2500) - 1 /\ Ev.req <= ((c2 + tol) \div 2500) + 2>> >>)
MaxAbs(d) == Max({Abs(d[i]) : i \in 1..Len(d)})
Value == LET qs == Ev.qs  asc == SortSeq(qs, LAMBDA x, y : x < y)
             g == GOf(asc)  ga == Strength(g)
             ex == ExactValue(ExpM(Neg(g)), Ev.tab, Ev.cl, Ev.diag, qs)
             n == MaxI(1600, Total(Ev.tab)) IN Keep /\ Judge(<<
   <<"mitigated_mean_within_six_standard_errors_of_the_exact_inverse",
        Abs(Ev.val - ex) <= 1000 + (6 * MaxAbs(Ev.diag) * Exp(ga)) \div ISqrt(n)>>,
   <<"reported_error", Near(Mul(Ev.err, ISqrt(Total(Ev.tab)) * M), Exp(2 * ga), 100 + (Exp(2 * ga) \div 100))>> >>)
SetEv == Keep /\ Judge(<<
   <<"standard_generators", Len(Ev.gens) = Cardinality({Ev.gens[i] : i \in 1..Len(Ev.gens)})
        /\ {Ev.gens[i] : i \in 1..Len(Ev.gens)} = StdSet(Ev.n)>> >>)
Truth == Keep /\ Judge(<< <<"rates_of_the_calibrated_noise_recovered", p.n <= 2 => \A k \in 1..Len(p.gens) :
        Near(rs[k], Ev.rates[k], 200)>> >>)
Reject == Keep /\ Judge(<< <<"rejected_" \o Ev.what, Ev.got # "ok">> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "gen" -> Gen
             [] Ev.ev = "assign" -> Assign
             [] Ev.ev = "over" -> Over1
             [] Ev.ev = "value" -> Value
             [] Ev.ev = "set" -> SetEv
             [] Ev.ev = "truth" -> Truth
             [] Ev.ev = "reject" -> Reject
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
