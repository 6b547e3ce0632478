---------------------------------- MODULE TGst ----------------------------------
(* p: [gates: labels in order, spam: label -> word, us: label -> 2x2 unitary, q]        *)
EXTENDS Gst, TraceBase
VARIABLES p, truth, lin
vars == <<l, p, truth, lin>>
Init == l = 1 /\ p = <<>> /\ truth = <<>> /\ lin = <<>>
Keep == UNCHANGED <<p, truth, lin>>
Gates == {p.gates[i] : i \in 1..Len(p.gates)}
Spams == DOMAIN p.spam
Circuits == Keep /\ Judge(<<
   <<"every_experiment_once", Len(Ev.labels) = Cardinality({Ev.labels[i] : i \in 1..Len(Ev.labels)})
        /\ {Ev.labels[i] : i \in 1..Len(Ev.labels)} = Tuples(Gates, Spams)>> >>)
Circ == LET gs == Ev.gs  ms == Measures(gs)  vs == SelectSeq(gs, LAMBDA g : g.g = "V") IN Keep /\ Judge(<<
   <<"known_instructions", \A k \in 1..Len(gs) : gs[k].g \in {"V", "M", "B"}>>,
   <<"only_the_measured_qubit_is_touched", \A k \in 1..Len(gs) : gs[k].g = "B" \/ gs[k].q = <<p.q>> >>,
   <<"preparation_gate_measurement_in_that_order", Ev.label \in Tuples(Gates, Spams) =>
        SameU(FoldLeft(LAMBDA acc, g : TLCEval(MatMul(g.m, acc)), PI, vs), WordU(p.us, WordFor(Ev.label, p.spam)), 150)>>,
   <<"measured_once_at_the_end", Len(ms) = 1 /\ TerminalMeas(gs) /\ Ev.nc = 1 /\ ms[1].c = <<0>> >> >>)
Mats == Keep /\ Judge(<<
   <<"gate_matrices", DOMAIN Ev.gate = Gates /\ \A g \in Gates : NearM(Ev.gate[g], PTMof(p.us[g]), 60)>>,
   <<"measurement_and_preparation_matrices", \A g \in Gates : Ev.meas[g] = Ev.gate[g] /\ Ev.prep[g] = Ev.gate[g]>>,
   <<"spam_matrix_is_the_product_in_time_order", DOMAIN Ev.spam = Spams /\ \A f \in Spams :
        NearM(Ev.spam[f], WordM([g \in Gates |-> PTMof(p.us[g])], p.spam[f]), 200)>>,
   <<"default_spam_circuits_are_informationally_complete", Ev.default =>
        LET T == [G |-> [g \in Gates |-> PTMof(p.us[g])], rho |-> <<R2, 0, 0, R2>>, E |-> <<R2, 0, 0, R2>>] IN
        Cardinality(Spams) = 4 /\ PivotsBig(Gram(T, Ev.spams, p.spam), 50000)>>,
   <<"labels", Ev.labels = p.gates /\ {Ev.spams[i] : i \in 1..Len(Ev.spams)} = Spams>> >>)
Truth == /\ UNCHANGED <<p, lin>> /\ truth' = [G |-> Ev.G, rho |-> Ev.rho, E |-> Ev.E]
         /\ Judge(<< <<"data_follow_the_gate_set", \A t \in Tuples(Gates, Spams) : \E i \in 1..Len(Ev.data) :
                 Ev.data[i][1] = t /\ Near(Ev.data[i][2], Prob(truth', WordFor(t, p.spam)), 40)>> >>)
Probs == Keep /\ Judge(<<
   <<"fitter_keeps_the_probability_of_outcome_0_of_every_experiment", \A t \in Tuples(Gates, Spams) :
        \E i \in 1..Len(Ev.data) : Ev.data[i][1] = t /\ Near(Ev.data[i][2], Prob(truth, WordFor(t, p.spam)), 40)>> >>)
Linear == LET L == [G |-> Ev.G, E |-> Ev.E, rho |-> Ev.rho]
              B == GaugeB(truth, Ev.spams, p.spam) IN
   UNCHANGED <<p, truth>> /\ lin' = L /\ Judge(<<
   <<"linear_inversion_is_the_gate_set_in_the_gauge_of_the_prepared_states",
        InGauge(truth, L, B, Gates, 1500)>>,
   <<"linear_inversion_predicts_every_sequence", \A k \in 1..Len(Ev.words) :
        Near(Prob(L, Ev.words[k]), Prob(truth, Ev.words[k]), 4000)>> >>)
Fit == LET L == [G |-> Ev.G, E |-> Ev.E, rho |-> Ev.rho] IN Keep /\ Judge(<<
   <<"fitted_gates_are_trace_preserving", \A g \in Gates : TracePreserving(L.G[g], 500)>>,
   <<"fitted_gates_map_states_to_states", \A g \in Gates : MapsToPositive(L.G[g], 800)>>,
   <<"fitted_state_and_measurement_are_positive", Positive(L.rho, 500) /\ UnitTrace(L.rho, 500) /\ Positive(L.E, 500)>>,
   <<"fit_reproduces_the_data", \A t \in Tuples(Gates, Spams) : Len(t) = 3 =>
        Near(Prob(L, WordFor(t, p.spam)), Prob(truth, WordFor(t, p.spam)), IF Ev.noisy THEN 40000 ELSE 2000)>>,
   <<"fit_finds_the_ideal_gates", Ev.noisy \/ \A g \in Gates : NearM(L.G[g], truth.G[g], 5000)>> >>)
Reject == Keep /\ Judge(<< <<"rejected_" \o Ev.what, Ev.got # "ok">> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> p' = Ev /\ UNCHANGED <<truth, lin>>
             [] Ev.ev = "circuits" -> Circuits
             [] Ev.ev = "circ" -> Circ
             [] Ev.ev = "mats" -> Mats
             [] Ev.ev = "truth" -> Truth
             [] Ev.ev = "probs" -> Probs
             [] Ev.ev = "linear" -> Linear
             [] Ev.ev = "fit" -> Fit
             [] Ev.ev = "reject" -> Reject
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
