-------------------------------- MODULE TRBFit --------------------------------
EXTENDS RBFit, TraceBase
VARIABLES c, store
vars == <<l, c, store>>
Init == l = 1 /\ c = <<>> /\ store = <<>>
Keep == UNCHANGED <<c, store>>
NL == Len(c.lens[1])
Of(v) == SelectSeq(store, LAMBDA r : r.v = v)
Tab(v, p) == RawTab(Of(v), v, c.pats, p, NL)
Obs == LET sub == Of(Ev.v) IN Keep /\ Judge(<<
   <<"seeds_in_order_of_arrival", Ev.seeds = SeedsOf(sub)>>,
   <<"raw_data_is_accumulated_ground_state_fraction", /\ Len(Ev.raw) = Len(c.pats)
        /\ \A p \in 1..Len(c.pats) : NearTab(Ev.raw[p], Tab(Ev.v, p), 2)>>,
   <<"mean_over_seeds", \A p \in 1..Len(c.pats) : MeanOK(Ev.mean[p], Tab(Ev.v, p))>>,
   <<"std_over_seeds", IF Len(SeedsOf(sub)) = 1 THEN Ev.nostd
        ELSE ~Ev.nostd /\ \A p \in 1..Len(c.pats) : StdOK(Ev.std[p], Tab(Ev.v, p))>>,
   <<"lengths_reported", Ev.lens = c.lens>> >>)
PurObs == Keep /\ Judge(<<
   <<"seeds_in_order_of_arrival", Ev.seeds = SeedsOf(store)>>,
   <<"purity_from_averaged_correlators", /\ Len(Ev.raw) = Len(c.pats)
        /\ \A p \in 1..Len(c.pats) : NearTab(Ev.raw[p], PurTab(store, c.pats, p, NL), 40)>>,
   <<"mean_over_seeds", \A p \in 1..Len(c.pats) : LET t == PurTab(store, c.pats, p, NL) IN
        \A k \in 1..NL : Near(Ev.mean[p][k], MeanOf(t, k), 40)>>,
   <<"lengths_reported", Ev.lens = c.lens>> >>)
K(p) == Len(c.pats[p])
Fit == Keep /\ Judge(<<
   <<"error_per_clifford", \A p \in 1..Len(c.pats) :
        Near(Ev.epc[p], Epc(K(p), Ev.alpha[p]), 3)>>,
   <<"error_per_clifford_error_bar", \A p \in 1..Len(c.pats) : Fine(Ev.aerr[p]) /\ Ev.alpha[p] > 100000 =>
        NearRel(Ev.epcerr[p], ErrOfEpc(K(p), Ev.alpha[p], Ev.aerr[p]))>> >>)
Wls == Keep /\ Judge(<<
   <<"fit_is_the_weighted_least_squares_optimum", \A p \in 1..Len(c.pats) :
        Optimal(Ev.mean[p], c.lens[p], Weights(IF Ev.nostd THEN <<>> ELSE Ev.std[p], NL), Ev.params[p])>> >>)
InterFit == Keep /\ Judge(<<
   <<"decays_are_those_of_the_two_fits", \A p \in 1..Len(c.pats) : Ev.alpha[p] = Ev.a0[p] /\ Ev.alphac[p] = Ev.a1[p]>>,
   <<"interleaved_gate_error", \A p \in 1..Len(c.pats) :
        Near(Ev.est[p], Interleaved(K(p), Ev.alpha[p], Ev.alphac[p]), 6)>>,
   <<"systematic_error", \A p \in 1..Len(c.pats) :
      LET s1 == SysErr1(K(p), Ev.alpha[p], Ev.alphac[p])
          s2 == SysErr2Lo(K(p), Ev.alpha[p], Ev.root[p]) IN
      /\ IsSqrt(Ev.root[p], M - Ev.alpha[p], 20)
      /\ Near(Ev.sys[p], MinI(s1, s2), 600)>>,
   <<"systematic_bounds", \A p \in 1..Len(c.pats) :
      Near(Ev.left[p], Ev.est[p] - Ev.sys[p], 3) /\ Near(Ev.right[p], Ev.est[p] + Ev.sys[p], 3)>>,
   <<"interleaved_error_bar", \A p \in 1..Len(c.pats) :
      /\ Ev.ae[p] = Ev.ae0[p] /\ Ev.ace[p] = Ev.ae1[p]
      /\ Fine(Ev.ae[p]) /\ Fine(Ev.ace[p]) /\ Ev.alpha[p] > 100000 /\ Ev.alphac[p] > 100000
         => InterErr(Ev.esterr[p], K(p), Ev.alpha[p], Ev.ae[p], Ev.alphac[p], Ev.ace[p])>> >>)
DihFit == Keep /\ Judge(<<
   <<"dihedral_decay_combines_both_fits", \A p \in 1..Len(c.pats) :
        Near(Ev.alpha[p], DihAlpha(K(p), Ev.a0[p], Ev.a1[p]), 3)>>,
   <<"dihedral_gate_error", \A p \in 1..Len(c.pats) : Near(Ev.epg[p], Epc(K(p), Ev.alpha[p]), 4)>>,
   <<"dihedral_error_bar", \A p \in 1..Len(c.pats) :
      Fine(Ev.ae0[p]) /\ Fine(Ev.ae1[p]) /\ Ev.a0[p] > 100000 /\ Ev.a1[p] > 100000 =>
         /\ DihErr(Ev.ae[p], K(p), Ev.a0[p], Ev.ae0[p], Ev.a1[p], Ev.ae1[p])
         /\ NearRel(Ev.epgerr[p], ErrOfEpc(K(p), Ev.alpha[p], Ev.ae[p]))>> >>)
PurFit == Keep /\ Judge(<<
   <<"purity_error_per_clifford", \A p \in 1..Len(c.pats) : Near(Ev.pepc[p], Epc(K(p), Ev.alpha[p]), 4)>>,
   <<"purity_error_bar", \A p \in 1..Len(c.pats) : Fine(Ev.aerr[p]) /\ Ev.alpha[p] > 100000 =>
        NearRel(Ev.pepcerr[p], ErrOfEpc(K(p), Ev.alpha[p], Ev.aerr[p]))>> >>)
(* the data followed the model exactly: the decay is recovered                            *)
Exact == LET t(p) == IF c.kind = "purity" THEN PurTab(store, c.pats, p, NL) ELSE Tab(Ev.v, p) IN
   Keep /\ Judge(<<
   <<"decay_recovered_from_exact_data", \A p \in 1..Len(c.pats) :
       (\A k \in 1..NL : Near(MeanOf(t(p), k),
            Decay(Ev.a[p], IF c.kind = "purity" THEN Mul(Ev.al[p], Ev.al[p]) ELSE Ev.al[p], Ev.b[p], c.lens[p][k]), 30))
       /\ Near(Ev.alpha[p], Ev.al[p], 1000)>> >>)
Curve == Keep /\ Judge(<<
   <<"fit_function_is_the_decay_model", Near(Ev.y, Decay(Ev.a, Ev.al, Ev.b, Ev.x), 20)>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> c' = Ev /\ store' = <<>>
             [] Ev.ev = "add" -> store' = store \o Ev.recs /\ UNCHANGED c
             [] Ev.ev = "obs" -> Obs
             [] Ev.ev = "purobs" -> PurObs
             [] Ev.ev = "fit" -> Fit
             [] Ev.ev = "wls" -> Wls
             [] Ev.ev = "interfit" -> InterFit
             [] Ev.ev = "dihfit" -> DihFit
             [] Ev.ev = "purfit" -> PurFit
             [] Ev.ev = "exact" -> Exact
             [] Ev.ev = "curve" -> Curve
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
