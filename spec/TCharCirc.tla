-------------------------------- MODULE TCharCirc --------------------------------
EXTENDS CharCirc, TraceBase
VARIABLES p
vars == <<l, p>>
Init == l = 1 /\ p = <<>>
Keep == UNCHANGED p
First(gs, q) == IF \E i \in 1..Len(gs) : gs[i].g \in {"I", "V", "CX"} /\ \E a \in 1..Len(gs[i].q) : gs[i].q[a] = q
                THEN CHOOSE i \in 1..Len(gs) : /\ gs[i].g \in {"I", "V", "CX"} /\ \E a \in 1..Len(gs[i].q) : gs[i].q[a] = q
                         /\ \A j \in 1..(i - 1) : gs[j].g \in {"B", "M"} \/ \A a \in 1..Len(gs[j].q) : gs[j].q[a] # q
                ELSE 0
Words(gs, q) == LET w == MapS(OnQ(gs, q), Tok) IN
                IF Coherence(p) THEN Merge(w) ELSE IF p.angleerr # 0 THEN NoDiag(w) ELSE w
Want(i) == IF Coherence(p) THEN Merge(WordOf(p, i)) ELSE WordOf(p, i)
Flip(s) == p.kind # "zz" \/ s = 1
Circ == LET gs == Ev.gs  hs == {Helpers(p)[k] : k \in 1..Len(Helpers(p))}
            ms == Measures(gs)  qs == p.qubits IN Keep /\ Judge(<<
   <<"known_instructions", \A k \in 1..Len(gs) : gs[k].g \in {"I", "V", "CX", "M", "B"}>>,
   <<"documented_sequence_on_every_listed_qubit", \A k \in 1..Len(qs) : SameWord(Words(gs, qs[k]), Want(Ev.i))>>,
   <<"artificial_angle_error_is_the_population_s_oscillation_error",
        p.kind \in {"anglecal1Q", "anglecalcx"} => \A k \in 1..Len(qs) :
           LET got == PopOf(MapS(OnQ(gs, qs[k]), Tok)) IN
           \E j \in (IF p.kind = "anglecal1Q" THEN {1, 2} ELSE {0}) :
              Near(got, PopWant(p.kind, Absc(p, Ev.i), p.turns, j), 800)>>,
   <<"no_other_qubit_is_touched", \A k \in 1..Len(gs) : gs[k].g = "B" \/ \A a \in 1..Len(gs[k].q) :
        gs[k].q[a] \in {qs[x] : x \in 1..Len(qs)} \cup (IF Flip(Ev.s) THEN hs ELSE {})>>,
   <<"spectators_and_controls_flipped_once_first", Flip(Ev.s) => \A h \in hs :
        LET w == MapS(OnQ(gs, h), Tok) IN
        /\ Len(w) >= 1 /\ w[1].t = "V" /\ SameU(w[1].m, vX, 50)
        /\ \A k \in 2..Len(w) : w[k].t = "CX"
        /\ p.kind = "zz" => Len(w) = 1 /\ \A x \in 1..Len(qs) : First(gs, h) < First(gs, qs[x])>>,
   <<"controlled_gates_join_control_and_its_qubit", \A k \in 1..Len(gs) : gs[k].g = "CX" =>
        \E x \in 1..Len(qs) : gs[k].q = <<p.others[x], qs[x]>> >>,
   <<"each_listed_qubit_measured_into_its_position",
        Len(ms) = Len(qs) /\ {<<ms[k].q[1], ms[k].c[1]>> : k \in 1..Len(ms)} = {<<qs[k], k - 1>> : k \in 1..Len(qs)}>>,
   <<"measurement_ends_the_sequence", TerminalMeas(gs)>> >>)
(* the number of delays and of repeated gates survives the transpiler's optimization         *)
Opt == LET w == WordOf(p, Ev.i) IN Keep /\ Judge(<<
   <<"delays_and_repeated_gates_survive_optimization", \A k \in 1..Len(p.qubits) :
        /\ Ev.n[k][1] = CountT(w, "I") /\ Ev.n[k][2] = CountT(w, "CX")
        /\ p.kind = "ampcal1Q" => Ev.n[k][3] = Len(w)
        /\ p.kind = "anglecal1Q" => Ev.n[k][3] >= Len(w) - 1>> >>)
Meta == LET n == NPoints(p)  ss == Series(p) IN Keep /\ Judge(<<
   <<"one_circuit_per_point_and_series_in_order_named_by_index",
        Len(Ev.names) = n * Len(ss) /\ \A s \in 1..Len(ss), i \in 1..n :
            Ev.names[(s - 1) * n + i] = <<p.kind \o "circuit", i - 1, ss[s]>> >>,
   <<"abscissa_is_the_delay_or_gate_count", Len(Ev.x) = n /\ \A i \in 1..n :
        Near(Ev.x[i], p.gt * Absc(p, i), 2)>>,
   <<"oscillation_frequency", p.kind \in {"t2star", "zz"} =>
        Near(Mul(Ev.osc, Ev.x[n]), p.nosc * M, 5 + Ev.x[n] \div M + Ev.osc \div M)>> >>)
NGates == Keep /\ Judge(<< <<"times_to_gate_numbers", Len(Ev.got) = Len(Ev.times) /\ \A i \in 1..Len(Ev.times) :
        2 * Abs(Ev.got[i] * Ev.gt - Ev.times[i]) <= Ev.gt>> >>)
Reject == Keep /\ Judge(<< <<"rejected_" \o Ev.what, Ev.got # "ok">> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> p' = Ev
             [] Ev.ev = "circ" -> Circ
             [] Ev.ev = "opt" -> Opt
             [] Ev.ev = "meta" -> Meta
             [] Ev.ev = "ngates" -> NGates
             [] Ev.ev = "reject" -> Reject
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
