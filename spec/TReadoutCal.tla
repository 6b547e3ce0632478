----------------------------- MODULE TReadoutCal -----------------------------
EXTENDS ReadoutCal, TraceBase
VARIABLES pat, prefix
vars == <<l, pat, prefix>>
Init == l = 1 /\ pat = <<>> /\ prefix = <<>>
(* begin: the request (pattern, label prefix as character codes)               *)
Begin == pat' = Ev.pat /\ prefix' = Ev.prefix
Rejected == /\ UNCHANGED <<pat, prefix>>
            /\ Judge(<< <<"invalid_request_rejected", ~Distinct(pat) \/ pat = <<>> >> >>)
(* labels returned by the generator (complete form: a list of labels)          *)
Labels == /\ UNCHANGED <<pat, prefix>>
          /\ Judge(<< <<"request_should_be_rejected", Distinct(pat)>>,
               <<"label_list_complete_and_ordered",
                 Ev.labels = [i \in 1..NumCircuits(pat) |-> LabelBits(pat, i - 1)]>> >>)
Pattern == /\ UNCHANGED <<pat, prefix>>
           /\ Judge(<< <<"request_should_be_rejected", Distinct(pat)>>,
                <<"pattern_returned", Ev.out = pat>>,
                <<"one_circuit_per_label", Ev.ncirc = NumCircuits(pat)>> >>)
Circ == /\ UNCHANGED <<pat, prefix>>
        /\ Judge(<< <<"circuit_name_is_prefix_and_label",
                       Ev.name = prefix \o <<99, 97, 108, 95>> \o
                         [k \in 1..NQ(pat) |-> 48 + Reverse(LabelBits(pat, Ev.i))[k]]>>,
                    <<"circuit_prepares_and_reads_its_label",
                       PreparesAndReads(pat, Ev.i, Ev.gates)>>,
                    <<"registers_as_requested", Ev.nq = Ev.wantq /\ Ev.nc = Ev.wantc>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "rejected" -> Rejected
             [] Ev.ev = "labels" -> Labels
             [] Ev.ev = "pattern" -> Pattern
             [] Ev.ev = "circuit" -> Circ
             [] OTHER -> UNCHANGED <<pat, prefix>> /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
