--------------------------------- MODULE TDiscr ---------------------------------
EXTENDS Discr, TraceBase
VARIABLES c, lab, rows, fitted
vars == <<l, c, lab, rows, fitted>>
Init == l = 1 /\ c = <<>> /\ lab = <<>> /\ rows = <<>> /\ fitted = <<>>
Keep == UNCHANGED <<c, lab, rows, fitted>>
Begin == c' = Ev /\ lab' = <<>> /\ rows' = <<>> /\ fitted' = <<>>
Ss == IF Ev.allscheds THEN CalNames(Ev.res) ELSE Ev.scheds
Sts == IF Ev.own THEN [i \in 1..Len(Ss) |-> IF Available(Ev.res, <<Ss[i]>>) THEN OwnState(Ev.res, Ss[i]) ELSE <<0>>] ELSE Ev.states
Op == LET ok == Accepts(Ev.res, Ss, Sts)
          nl == IF ok THEN Assign(lab, Ss, Sts) ELSE lab
          nr == IF ok THEN rows \o Rows(Ev.res, Ss, nl, c.mask) ELSE rows
          nf == IF ok /\ Ev.refit /\ nr # <<>> THEN nr ELSE fitted IN
      /\ UNCHANGED c /\ lab' = nl /\ rows' = nr /\ fitted' = nf
      /\ Judge(<<
           <<"accepted_iff_consistent", (Ev.got = "ok") <=> ok>>,
           <<"arguments_not_modified", Ev.same>>,
           <<"trained_on_exactly_the_given_shots", c.rec /\ Ev.alive => SameBag(Ev.rows, nf)>>,
           <<"expected_state_per_schedule", Ev.alive =>
                /\ {e[1] : e \in {Ev.expected[i] : i \in 1..Len(Ev.expected)}} = DOMAIN nl
                /\ \A i \in 1..Len(Ev.expected) : nl[Ev.expected[i][1]] = Ev.expected[i][2]>>,
           <<"fitted_flag", Ev.alive => (Ev.fitted <=> nf # <<>>)>> >>)
Final == Keep /\ Judge(<< <<"explicit_fit_uses_all_data", SameBag(Ev.rows, rows)>> >>)
Classify == Keep /\ Judge(<<
   <<"one_label_per_shot", Len(Ev.labels) = Len(Ev.shots)>>,
   <<"label_of_the_own_cloud", \A i \in 1..MinI(Len(Ev.labels), Len(Ev.shots)) :
        Ev.labels[i] \in Nearest(fitted, Feature(Ev.shots[i], c.mask))>> >>)
Filter == LET in == Level1(Ev.res)  n == MinI(Len(in), Len(Ev.out))
              base == IF Ev.base = 0 THEN Base({lab[k] : k \in DOMAIN lab}) ELSE Ev.base IN
   Keep /\ Judge(<<
   <<"input_result_unchanged", Ev.same>>,
   <<"level_one_experiments_in_order", Names(Ev.out) = Names(in)>>,
   <<"announced_as_level_two", \A i \in 1..n : Ev.out[i].lvl = 2>>,
   <<"memory_labels_each_own_shot", \A i \in 1..n : /\ Len(Ev.out[i].memory) = Len(in[i].shots)
        /\ \A j \in 1..MinI(Len(Ev.out[i].memory), Len(in[i].shots)) :
              Ev.out[i].memory[j] \in Nearest(fitted, Feature(in[i].shots[j], c.mask))>>,
   <<"counts_tally_the_labels", \A i \in 1..n : LET t == Tally(Ev.out[i].memory, base) IN
        /\ {Ev.out[i].counts[k][1] : k \in 1..Len(Ev.out[i].counts)} = DOMAIN t
        /\ \A k \in 1..Len(Ev.out[i].counts) : t[Ev.out[i].counts[k][1]] = Ev.out[i].counts[k][2]>> >>)
Select == LET in == [i \in 1..Len(Ev.res[1]) |-> Ev.res[1][i]]
              sel == Chosen(in, Ev.typ) IN
   Keep /\ Judge(<<
   <<"kinds_of_experiments_are_calibration_other_or_all", (Ev.got = "ok") <=> Ev.typ \in 0..2>>,
   <<"reads_exactly_the_experiments_of_that_kind", Ev.got = "ok" => SameBag(Ev.rows, AllFeatures(sel, c.mask))>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "op" -> Op
             [] Ev.ev = "final" -> Final
             [] Ev.ev = "classify" -> Classify
             [] Ev.ev = "select" -> Select
             [] Ev.ev = "filter" -> Filter
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
