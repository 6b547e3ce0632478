--------------------------------- MODULE TCharFit ---------------------------------
EXTENDS CharFit, TraceBase
VARIABLES c, store, shown
vars == <<l, c, store, shown>>
Init == l = 1 /\ c = <<>> /\ store = <<>> /\ shown = <<>>
Keep == UNCHANGED <<c, store, shown>>
Begin == c' = Ev /\ store' = <<>> /\ shown' = <<>>
Add == /\ UNCHANGED c
       /\ store' = store \o Ev.res
       /\ shown' = IF Ev.recalc THEN store' ELSE shown
       /\ Judge(<< <<"results_accepted", Ev.got = "ok">> >>)
Ex == Expected(c.kind)
Y == Keep /\ Judge(<<
   <<"population_of_the_qubits_own_bit", \A k \in 1..Len(c.series), q \in 1..c.nq : Len(Ev.y[k][q]) = c.n /\ \A i \in 1..c.n :
        Near(Ev.y[k][q][i].mean, Frac(shown, c.series[k], i, q, Ex), 2)>>,
   <<"binomial_standard_error", \A k \in 1..Len(c.series), q \in 1..c.nq, i \in 1..c.n :
        LET p == Frac(shown, c.series[k], i, q, Ex)  e == Ev.y[k][q][i] IN
        IF p \in {0, M} THEN e.std > 0 /\ e.std <= 1000
        ELSE e.n = Shots(shown, c.series[k], i) /\ IsSqrt(e.stdn, Mul(p, M - p), 3)>> >>)
(* params[k][q]: the fitted parameters; truth[k][q] the model the data follow              *)
Fit == Keep /\ Judge(<<
   <<"data_follow_the_model", Ev.exact => \A k \in 1..Len(c.series), q \in 1..c.nq, i \in 1..c.n :
        Near(Frac(shown, c.series[k], i, q, Ex), Model(c.kind, c.x[i], Ev.truth[k][q]), 120)>>,
   <<"fit_recovers_the_model", Ev.exact => \A k \in 1..Len(c.series), q \in 1..c.nq :
        /\ Len(Ev.params[k][q]) = Len(Ev.truth[k][q])
        /\ \A j \in 1..Len(Ev.truth[k][q]) : RelNear(Ev.params[k][q][j], Ev.truth[k][q][j])>>,
   <<"time_is_the_fitted_decay_time", c.kind \in {"t1", "t2", "t2star"} =>
        /\ \A q \in 1..c.nq : Ev.derived[q] = Ev.params[1][q][2] /\ Ev.derr[q] = Ev.perr[1][q][2]
                              /\ Len(Ev.derr) = 2 * c.nq /\ Ev.derr[c.nq + q] = Ev.perr[1][q][2]
        /\ Ev.derivedall = Ev.derived>>,
   <<"zz_rate_is_the_frequency_difference", c.kind = "zz" =>
        /\ \A q \in 1..c.nq : Near(Ev.derived[q], Ev.params[2][q][2] - Ev.params[1][q][2], 2)
        /\ Ev.derivedall = Ev.derived>>,
   <<"angle_error_is_half_the_fitted_error", ~Coherence(c) =>
        /\ \A q \in 1..c.nq : Near(2 * Ev.derived[q], Ev.params[1][q][1], 2)
        /\ Ev.derivedall = Ev.derived>> >>)
(* refitting one qubit or series leaves the others                                          *)
Refit == Keep /\ Judge(<<
   <<"only_the_requested_fits_change", \A k \in 1..Len(c.series), q \in 1..c.nq :
        ~(q = Ev.q /\ k = Ev.k) => Ev.after[k][q] = Ev.before[k][q]>>,
   <<"requested_fit_recovers_the_model", \A j \in 1..Len(Ev.truth) : RelNear(Ev.after[Ev.k][Ev.q][j], Ev.truth[j])>> >>)
Opt == Keep /\ Judge(<<
   <<"fit_is_the_weighted_optimum", \A k \in 1..Len(c.series) :
        Optimal(c.kind, c.x, Ev.mean[k], Ev.std[k], Ev.params[k], Ev.perr[k])>>,
   <<"error_bars_of_the_fit", ~Coherence(c) =>
        ErrorBars(c.kind, c.x, Ev.mean[1], Ev.std[1], Ev.params[1], Ev.perr[1])>> >>)
Opts == Keep /\ Judge(<<
   <<"given_" \o Ev.what \o "_used", \A k \in 1..Len(c.series), q \in 1..c.nq : \A j \in 1..Len(Ev.truth[k][q]) :
        RelNear(Ev.params[k][q][j], Ev.truth[k][q][j])>> >>)
Bound == Keep /\ Judge(<<
   <<"given_bounds_respected", \A q \in 1..c.nq : IF Ev.q = 0 \/ Ev.q = q
        THEN \A j \in 1..Len(Ev.lo) : Ev.params[1][q][j] >= Ev.lo[j] - 2 /\ Ev.params[1][q][j] <= Ev.hi[j] + 2
        ELSE Ev.params[1][q] = Ev.before[1][q]>> >>)
Guess == Keep /\ Judge(<<
   <<"guess_from_the_qubits_own_data", Len(Ev.got) = c.nq /\ \A q \in 1..c.nq : Len(Ev.got[q]) = Len(Ev.own[q]) /\
        \A j \in 1..Len(Ev.own[q]) : Near(Ev.got[q][j], Ev.own[q][j], 300 + Abs(Ev.own[q][j]) \div 500)>>,
   <<"guessed_frequency_is_near", c.kind = "t2star" => \A q \in 1..c.nq :
        Near(Mul(Abs(Ev.got[q][3]) - Ev.truth[q][3], c.x[c.n] - c.x[1]), 0, M + M \div 2)>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "add" -> Add
             [] Ev.ev = "y" -> Y
             [] Ev.ev = "fit" -> Fit
             [] Ev.ev = "refit" -> Refit
             [] Ev.ev = "opt" -> Opt
             [] Ev.ev = "opts" -> Opts
             [] Ev.ev = "bound" -> Bound
             [] Ev.ev = "guess" -> Guess
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
