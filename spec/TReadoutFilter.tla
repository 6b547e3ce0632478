---------------------------- MODULE TReadoutFilter ----------------------------
EXTENDS ReadoutFilter, TraceBase
VARIABLES labs, As, P
vars == <<l, labs, As, P>>
Init == l = 1 /\ labs = <<>> /\ As = <<>> /\ P = <<>>
(* begin: the filter under test; P is what it must invert                           *)
Begin == labs' = Ev.labs /\ As' = Ev.mats /\ P' = PMat(Ev.mats, Ev.labs)
Keep == UNCHANGED <<labs, As, P>>
(* one mitigated table: data b, answer x (tables); input observed after the call     *)
Apply1 == /\ Keep
          /\ LET b == Vec(labs, Ev.data)  x == Vec(labs, Ev.out) IN
             Judge(<< <<"answer_is_over_calibrated_labels",
                         \A i \in 1..Len(Ev.out) : \E j \in 1..Len(P) : Space(labs)[j] = Ev.out[i][1]>>,
                      <<"each_label_once", NoDupKeys(Ev.out)>>,
                      <<"input_unchanged", Ev.data = Ev.after>>,
                      IF Ev.method = "pinv"
                      THEN <<"pseudo_inverse_answer_inverts_matrix", Inverts(P, x, b, 1500)>>
                      ELSE <<"least_squares_answer_is_physical_optimum", Optimal(P, x, b, 300)>>,
                      <<"feasible", Ev.method = "pinv" \/ Feasible(x, b, 20)>> >>)
(* forms rejected / accepted that must be                                             *)
Reject == Keep /\ Judge(<< <<"valid_input_rejected", ~Ev.valid>> >>)
Accept == Keep /\ Judge(<< <<"invalid_input_accepted", Ev.valid>> >>)
Shape == Keep /\ Judge(<< <<"output_has_form_of_input", Ev.ok>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "apply" -> Apply1
             [] Ev.ev = "reject" -> Reject
             [] Ev.ev = "accept" -> Accept
             [] Ev.ev = "shape" -> Shape
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
