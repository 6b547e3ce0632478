--------------------------------- MODULE TRepCode ---------------------------------
EXTENDS RepCode, TraceBase
VARIABLES c
vars == <<l, c>>
Init == l = 1 /\ c = <<>>
Keep == UNCHANGED c
NRounds(ops) == Len(SelectSeq(ops, LAMBDA o : o.op = "round"))
Rounds(ops) == SelectSeq(ops, LAMBDA o : o.op = "round")
Regular(ops) == \A i \in 1..(Len(Rounds(ops)) - 1) : Rounds(ops)[i].reset
HasRead(ops) == ops # <<>> /\ Last(ops).op = "readout"
(* ---- circuits ------------------------------------------------------------------------------ *)
(* what a history means for outcomes, independent of gate order: outcome of link j in round t    *)
(* for code faults at the very start                                                              *)
CircEv == LET d == Ev.d  T == NRounds(Ev.ops)
              gs == Ev.gs
              ok == Known(gs)
              R == SymRun(NQ(d), NC(d, T), gs)
              r == SymRaw(d, T, R.c)
              p == SymProcess(d, T, r)
              C == CircuitOf(d, Ev.ops, Ev.log)
              R0 == SymRun(NQ(d), NC(d, T), C.gs)
              r0 == SymRaw(d, T, R0.c)
   IN Keep /\ Judge(<<
   <<"circuit_is_named_by_its_logical_value", Ev.name = Ev.log>>,
   <<"only_bit_flips_parity_checks_measurements_resets", ok>>,
   <<"registers_links_then_code", Ev.nq = NQ(d) /\ Ev.cregs = [t \in 1..T |-> d - 1] \o (IF HasRead(Ev.ops) THEN <<d>> ELSE <<>>)>>,
   <<"faultless_outcomes", ok => EvalRaw(r, {}) = EvalRaw(r0, {})>>,
   <<"stored_value_read_by_every_code_qubit", (ok /\ HasRead(Ev.ops)) =>
        \A j \in 1..d : r.code[j].c = Stored(Ev.ops, Ev.log)>>,
   <<"code_flip_shows_in_adjacent_parities_only", (ok /\ HasRead(Ev.ops) /\ Regular(Ev.ops)) =>
        \A i \in 1..Len(gs) : \A k \in 1..Len(gs[i].q) : (gs[i].g # "B" /\ gs[i].q[k] >= d - 1) =>
            CodeFaultOK(d, T, gs, p, i, gs[i].q[k] - (d - 1))>>,
   <<"readout_flip_shows_in_two_consecutive_rounds", (ok /\ HasRead(Ev.ops) /\ Regular(Ev.ops)) =>
        \A t \in 0..(T - 1), j \in 0..(d - 2) : ReadFlipOK(d, T, p, t, j)>>,
   <<"every_fault_makes_a_pair_of_events", (ok /\ HasRead(Ev.ops) /\ Regular(Ev.ops)) => Pairwise(p)>>,
   <<"every_parity_bit_is_measured_once", ok => \A t \in 1..T, j \in 1..(d - 1) :
        LET cnt == Cardinality({k \in 1..Len(gs) : gs[k].g = "M" /\ gs[k].c = <<LinkB(d, t - 1, j - 1)>>})
        IN cnt = 1>>,
   <<"outcomes_depend_on_initial_flips_as_specified", ok =>
        \A F \in {{CodeQ(d, a), CodeQ(d, b)} : a, b \in 0..(d - 1)} :
          LET pre == SetToSeq({[g |-> "X", q |-> <<x>>] : x \in F})
              A == SymRun(NQ(d), NC(d, T), pre \o gs)  B == SymRun(NQ(d), NC(d, T), pre \o C.gs)
          IN  EvalRaw(SymRaw(d, T, A.c), {}) = EvalRaw(SymRaw(d, T, B.c), {})>> >>)
(* ---- processing ------------------------------------------------------------------------------ *)
PSame(o, q) == o.log = q.log /\ o.ch = q.ch
ProcEv == LET d == Ev.d  T == Ev.T IN Keep /\ Judge(<<
   <<"every_shot_kept_once_with_its_stored_value",
        /\ Len(Ev.outs) = Len(Ev.raws)
        /\ \A i \in 1..Len(Ev.outs) : Ev.outs[i].ok>>,
   <<"logical_values_then_parity_changes", \A i \in 1..Len(Ev.raws) :
        \E k \in 1..Len(Ev.outs) : /\ Ev.outs[k].of = Ev.raws[i].of /\ Ev.outs[k].n = Ev.raws[i].n
             /\ Ev.outs[k].ok /\ PSame(Ev.outs[k], Process(d, T, Ev.raws[i]))>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> c' = Ev
             [] Ev.ev = "circ" -> CircEv
             [] Ev.ev = "proc" -> ProcEv
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
