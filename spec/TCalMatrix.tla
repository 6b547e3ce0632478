------------------------------ MODULE TCalMatrix ------------------------------
EXTENDS CalMatrix, TraceBase
VARIABLES sizes, labels, qubits, tally, built
vars == <<l, sizes, labels, qubits, tally, built>>
Init == l = 1 /\ sizes = <<1>> /\ labels = <<>> /\ qubits = <<>>
        /\ tally = EmptyTally(<<1>>) /\ built = Unset
Begin == /\ sizes' = Ev.sizes /\ labels' = Ev.labels /\ qubits' = Ev.qubits
         /\ tally' = EmptyTally(Ev.sizes) /\ built' = Unset
Keep == UNCHANGED <<sizes, labels, qubits, tally, built>>
(* one addition; results carries calibration experiments only, in call order     *)
Add == /\ tally' = AddResults(sizes, tally, Ev.results)
       /\ built' = IF Ev.none THEN built ELSE IF Ev.rebuild THEN tally' ELSE built
       /\ UNCHANGED <<sizes, labels, qubits>>
(* a caller supplied matrix tally is not modelled; observations:                  *)
Mats == Keep /\ Judge(<<
     <<"matrices_exist_only_after_data", (built = Unset) = Ev.unset>>,
     <<"calibration_matrix_is_normalised_tally", (built # Unset /\ ~Ev.unset) =>
        /\ Len(Ev.mats) = Len(sizes)
        /\ \A g \in 1..Len(sizes) : NearMat(Ev.mats[g], Matrix(built[g], labels[g]), 2)>> >>)
(* matrices set by the caller are kept as given until the next rebuild            *)
Set == Keep /\ Judge(<< <<"matrices_set_by_the_caller_are_kept", Ev.got = Ev.want>> >>)
Fid == Keep /\ Judge(<<
     <<"readout_fidelity_mean_of_blocks", built # Unset /\
        Near(Ev.value, Fidelity(built[Ev.g], sizes[Ev.g],
              IF Ev.groups = <<>> THEN [i \in 1..Len(labels[Ev.g]) |-> <<labels[Ev.g][i]>>]
              ELSE Ev.groups), 6)>> >>)
FidErr == Keep /\ Judge(<< <<"fidelity_refused_without_data", built = Unset>> >>)
Subset == Keep /\ Judge(<<
     <<"subset_accepted_only_for_calibrated_qubits",
         \A i \in 1..Len(Ev.sub) : \E k \in 1..Len(qubits) : qubits[k] = Ev.sub[i]>>,
     <<"subset_labels_ordered", Ev.labels = AllLabels(Len(Ev.sub))>>,
     <<"subset_matrix_is_marginal", built # Unset /\
         NearMat(Ev.mat, SubMatrix(built[1], sizes[1],
            [i \in 1..Len(Ev.sub) |-> CHOOSE k \in 1..Len(qubits) : qubits[k] = Ev.sub[i]]), 8)>> >>)
SubErr == Keep /\ Judge(<< <<"subset_refused_without_reason",
     \/ built = Unset
     \/ \E i \in 1..Len(Ev.sub) : \A k \in 1..Len(qubits) : qubits[k] # Ev.sub[i]>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "add" -> Add
             [] Ev.ev = "mats" -> Mats
             [] Ev.ev = "set" -> Set
             [] Ev.ev = "fid" -> Fid
             [] Ev.ev = "fid_err" -> FidErr
             [] Ev.ev = "subset" -> Subset
             [] Ev.ev = "subset_err" -> SubErr
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
