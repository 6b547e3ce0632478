--------------------------------- MODULE TAccFit ---------------------------------
EXTENDS AccFit, TraceBase
VARIABLES c, rs, last
vars == <<l, c, rs, last>>
NF == 3
(* last[i] = <<bound, confidence>> as of the last bound call of fitter i, g its weight     *)
Init == l = 1 /\ c = <<>> /\ rs = <<>> /\ last = <<>>
Keep == UNCHANGED <<c, rs, last>>
Begin == /\ c' = Ev /\ rs' = [i \in 1..NF |-> <<>>] /\ last' = [i \in 1..NF |-> <<M, M>>]
RunEv == LET i == Ev.f  run == [v |-> Ev.v, circ |-> Ev.circ]  ok == Admissible(rs[i], run) IN
   /\ rs' = IF ok THEN [rs EXCEPT ![i] = Append(@, run)] ELSE rs
   /\ UNCHANGED <<c, last>>
   /\ Judge(<< <<"admissible_run_accepted_for_processing", ok => Ev.got = "ok">>,
               <<"inconsistent_run_rejected", ~ok => Ev.got # "ok">>,
               <<"flag_tells_whether_all_traps_passed", ok => (Ev.flag = "accepted") = Accepted(run) /\ Ev.flag \in {"accepted", "rejected"}>> >>)
Sure(i, th) == Abs(Acc(rs[i]) - th) > 3 \/ Ev.exact
BoundEv == LET i == Ev.f  none == NAcc(rs[i]) = 0 IN
   /\ UNCHANGED <<c, rs>>
   /\ last' = IF none \/ ~Sure(i, Ev.theta) THEN [last EXCEPT ![i] = <<Ev.bound, Ev.conf>>]
              ELSE [last EXCEPT ![i] = <<Bound(rs[i], Ev.theta, Ev.g), Conf(rs[i], Ev.theta)>>]
   /\ Judge(<< <<"bound_needs_an_accepted_run", none => Ev.got # "ok">>,
               <<"bound_computed", ~none => Ev.got = "ok">>,
               <<"bound_is_the_documented_function", ~none /\ Sure(i, Ev.theta) =>
                    Near(Ev.bound, Bound(rs[i], Ev.theta, Ev.g), 4 + Bound(rs[i], Ev.theta, Ev.g) \div (1 + Abs(Acc(rs[i]) - Ev.theta) \div 4))>>,
               <<"confidence_is_the_documented_function", ~none /\ Sure(i, Ev.theta) =>
                    Near(Ev.conf, Conf(rs[i], Ev.theta), 40 + 4 * Len(rs[i]) * Len(rs[i]))>> >>)
(* every fitter, after every operation                                                      *)
Obs == Keep /\ Judge(<<
   <<"counts_of_runs_and_acceptances", \A i \in 1..NF : Ev.s[i].runs = Len(rs[i]) /\ Ev.s[i].acc = NAcc(rs[i])>>,
   <<"outputs_are_the_corrected_targets_of_accepted_runs", \A i \in 1..NF : Ev.s[i].out = Outputs(rs[i])>>,
   <<"number_of_traps_recorded", \A i \in 1..NF : rs[i] # <<>> => Ev.s[i].traps = NTraps(rs[i][1])>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> Begin
             [] Ev.ev = "run" -> RunEv
             [] Ev.ev = "bound" -> BoundEv
             [] Ev.ev = "obs" -> Obs
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
