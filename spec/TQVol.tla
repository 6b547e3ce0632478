---------------------------------- MODULE TQVol ----------------------------------
EXTENDS QVol, TraceBase
VARIABLES c, ideal, store
vars == <<l, c, ideal, store>>
Init == l = 1 /\ c = <<>> /\ ideal = <<>> /\ store = <<>>
Keep == UNCHANGED <<c, ideal, store>>
Lookup(d, t) == LET s == SelectSeq(ideal, LAMBDA r : r.d = d /\ r.t = t) IN s
Known(r) == Lookup(r.d, r.t) # <<>>
WOf(d, t) == Lookup(d, t)[1].w
(* ---- circuits ---------------------------------------------------------------------------- *)
CircEv == LET D == OutDist(Ev.full, Ev.meas, Ev.k) IN Keep /\ Judge(<<
   <<"measures_each_listed_qubit_into_its_position",
       /\ Len(Ev.meas) = Ev.k /\ Ev.k = Len(Ev.list)
       /\ {Ev.meas[i] : i \in 1..Len(Ev.meas)} = {<<Ev.list[i], i - 1>> : i \in 1..Len(Ev.list)}>>,
   <<"acts_only_on_listed_qubits", {Ev.touched[i] : i \in 1..Len(Ev.touched)} \subseteq {Ev.list[i] : i \in 1..Len(Ev.list)}>>,
   <<"measured_circuit_has_the_ideal_outcome_distribution", NearSeq(D, Ev.ideal, 40)>>,
   <<"measurements_close_the_circuit", Ev.last>>,
   <<"ideal_circuit_is_not_measured", Ev.idealmeas = 0>>,
   <<"names_give_depth_and_trial", Ev.name = Ev.want /\ Ev.iname = Ev.want>>,
   <<"circuit_is_square", Ev.depth = Ev.k /\ Ev.width = Ev.k>> >>)
ListEv == Keep /\ Judge(<<
   <<"one_circuit_per_trial_and_list", /\ Len(Ev.shape) = Ev.ntrials /\ Len(Ev.ishape) = Ev.ntrials
        /\ \A t \in 1..Ev.ntrials : Ev.shape[t] = Ev.nlists /\ Ev.ishape[t] = Ev.nlists>>,
   <<"same_seed_same_circuits", Ev.seeded => Ev.same>>,
   <<"trials_differ", Ev.ntrials >= 3 => Ev.distinct > 1>> >>)
(* ---- fitter -------------------------------------------------------------------------------- *)
AddIdeal == LET dup == \E i \in 1..Len(Ev.recs) : Known(Ev.recs[i]) IN
   /\ UNCHANGED <<c, store>>
   /\ ideal' = IF dup THEN ideal ELSE ideal \o Ev.recs
   /\ Judge(<< <<"second_ideal_result_rejected", (Ev.got = "QiskitError") = dup>>,
               <<"ideal_result_accepted", (Ev.got = "ok") = ~dup>> >>)
AddData == LET ok == \A i \in 1..Len(Ev.recs) : Known(Ev.recs[i]) IN
   /\ UNCHANGED <<c, ideal>>
   /\ store' = IF ok THEN store \o Ev.recs ELSE store
   /\ Judge(<< <<"data_without_ideal_rejected", ok \/ Ev.got = "QiskitError">>,
               <<"data_accepted", ok => Ev.got = "ok">> >>)
HeavyEv == Keep /\ Judge(<<
   <<"heavy_outputs_are_those_above_the_median",
      /\ {<<Ev.h[i].d, Ev.h[i].t>> : i \in 1..Len(Ev.h)} = {<<ideal[i].d, ideal[i].t>> : i \in 1..Len(ideal)}
      /\ \A i \in 1..Len(Ev.h) : LET e == Ev.h[i] IN
           /\ {ValOf(e.outs[k]) : k \in 1..Len(e.outs)} = Heavy(WOf(e.d, e.t))
           /\ Len(e.outs) = Cardinality(Heavy(WOf(e.d, e.t)))
           /\ \A k \in 1..Len(e.outs) : Len(e.outs[k]) = e.d>>,
   <<"ideal_heavy_output_probability", \A i \in 1..Len(Ev.h) :
        Near(Ev.h[i].p, HeavyIdeal(WOf(Ev.h[i].d, Ev.h[i].t)), 3)>> >>)
N == NTrials(store)
Ws(d) == [t \in 1..N |-> WOf(d, t - 1)]
Obs == Keep /\ Judge(<<
   <<"heavy_counts_are_heavy_shots", \A i \in 1..Len(c.depths), t \in 1..N :
        \E k \in 1..Len(Ev.hc) : /\ Ev.hc[k].d = c.depths[i] /\ Ev.hc[k].t = t - 1
                                 /\ Ev.hc[k].n = HeavyCount(store, c.depths[i], t - 1, WOf(c.depths[i], t - 1))>>,
   <<"mean_heavy_output_probability", \A i \in 1..Len(c.depths) :
        Near(Ev.y[1][i], HMean(store, c.depths[i], Ws(c.depths[i])), 3)>>,
   <<"error_of_the_mean", \A i \in 1..Len(c.depths) : IsErr(Ev.y[2][i], Ev.y[1][i], N)>>,
   <<"mean_ideal_heavy_output_probability", \A i \in 1..Len(c.depths) : Near(Ev.y[3][i], IMean(Ws(c.depths[i])), 4)>>,
   <<"error_of_the_ideal_mean", \A i \in 1..Len(c.depths) : Ev.y[3][i] >= M - 1 \/ IsErr(Ev.y[4][i], Ev.y[3][i], N)>>,
   <<"confidence_level", Len(Ev.succ) = Len(c.depths) /\ \A i \in 1..Len(c.depths) :
        PhiOK(Ev.succ[i].conf, Z(Ev.y[1][i], Ev.y[2][i]))>>,
   <<"success_iff_above_two_thirds_by_two_sigma", \A i \in 1..Len(c.depths) :
        LET z == Z(Ev.y[1][i], Ev.y[2][i]) IN
        /\ z > 2 * M + 3000 => Ev.succ[i].ok
        /\ z < 2 * M - 3000 => ~Ev.succ[i].ok>>,
   <<"volume_is_two_to_the_depth", Ev.qv = [i \in 1..Len(c.depths) |-> Pow2(c.depths[i])]>> >>)
TrialsEv == Keep /\ Judge(<<
   <<"each_trial_shows_its_own_fraction", \A i \in 1..Len(Ev.ts) : LET e == Ev.ts[i] IN
        /\ Len(e.each) = N
        /\ \A t \in 1..MinI(N, Len(e.each)) : Near(e.each[t], HTrial(store, e.d, t - 1, WOf(e.d, t - 1)), 3)>>,
   <<"running_mean_of_the_trials", \A i \in 1..Len(Ev.ts) : LET e == Ev.ts[i] IN
        /\ Len(e.run) = N
        /\ \A t \in 1..MinI(N, Len(e.run)) : Near(e.run[t], SumSeq(SubSeq(e.each, 1, t)) \div t, 3)>>,
   <<"depths_and_lists_as_given", Ev.lists = c.lists /\ Ev.depths = [i \in 1..Len(c.lists) |-> Len(c.lists[i])]>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> c' = Ev /\ ideal' = <<>> /\ store' = <<>>
             [] Ev.ev = "circ" -> CircEv
             [] Ev.ev = "list" -> ListEv
             [] Ev.ev = "addideal" -> AddIdeal
             [] Ev.ev = "adddata" -> AddData
             [] Ev.ev = "heavy" -> HeavyEv
             [] Ev.ev = "obs" -> Obs
             [] Ev.ev = "trials" -> TrialsEv
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
