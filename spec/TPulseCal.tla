------------------------------- MODULE TPulseCal -------------------------------
EXTENDS PulseCal, TraceBase
VARIABLES p, store, shown
vars == <<l, p, store, shown>>
Init == l = 1 /\ p = <<>> /\ store = <<>> /\ shown = <<>>
Keep == UNCHANGED <<p, store, shown>>
On(ins, q) == SelectSeq(ins, LAMBDA x : x.k = "play" /\ x.ch = "d" /\ x.idx = q)
Sched == LET ins == Ev.ins  qs == p.qubits  lst == {qs[j] : j \in 1..Len(qs)} IN Keep /\ Judge(<<
   <<"drive_pulses_of_the_listed_qubits_carry_the_value", \A j \in 1..Len(qs) :
        LET d == Drives(p, Ev.i, j)  o == On(ins, qs[j]) IN
        Len(o) = Len(d) /\ \A a \in 1..Len(d) : /\ o[a].t = d[a][1]
             /\ Len(o[a].smp) = p.w
             /\ \A k \in 1..p.w : CNear(o[a].smp[k], Sample(p, d[a], k - 1), 12)>>,
   <<"no_other_qubit_is_driven", \A k \in 1..Len(ins) : (ins[k].k = "play" /\ ins[k].ch \in {"d", "u"}) => ins[k].idx \in lst>>,
   <<"each_listed_qubit_acquired_once_after_its_drive_into_its_slot", \A j \in 1..Len(qs) :
        LET a == SelectSeq(ins, LAMBDA x : x.k = "acq" /\ x.idx = qs[j]) IN
        Len(a) = 1 /\ a[1].slot = qs[j] /\ a[1].t = DriveEnd(p) + p.lag>>,
   <<"measurement_pulses_follow_the_drive", \A k \in 1..Len(ins) :
        (ins[k].k = "play" /\ ins[k].ch = "m") => ins[k].t >= DriveEnd(p)>> >>)
Names == Keep /\ Judge(<<
   <<"one_schedule_per_value_named_by_index", Len(Ev.names) = Len(p.x) /\ \A i \in 1..Len(p.x) :
         Ev.names[i] = <<p.kind \o "sched", i - 1, 0>> >>,
   <<"abscissa_is_the_swept_value", NearSeq(Ev.x, p.x, 1)>>,
   <<"instruction_map_untouched", Ev.same>> >>)
ZOf(st, q) == [i \in 1..p.n |-> IQMean(st, i, q + 1)]
DataOk(st, y) == Len(y) = Len(p.qubits) /\ \A j \in 1..Len(p.qubits) :
     LET z == ZOf(st, p.qubits[j]) IN Collinear(z, 300) => SignalOf(y[j], z, 300)
AddR == LET st == store \o Ev.res IN
   /\ store' = st /\ UNCHANGED p
   /\ shown' = Ev.y
   /\ IF Ev.re THEN Judge(<<
        <<"signal_is_the_distance_along_the_line_of_the_qubits_own_levels", DataOk(st, Ev.y)>>,
        <<"shot_errors_are_their_standard_deviation", p.avg \/ \A j \in 1..Len(Ev.std) : \A i \in 1..Len(Ev.std[j]) :
             Near(Mul(Ev.std[j][i], Ev.std[j][i]), IQVar(st, i, p.qubits[j] + 1), 200)>>,
        <<"errors_positive", \A j \in 1..Len(Ev.std) : Len(Ev.std[j]) = p.n /\ \A i \in 1..p.n : Ev.std[j][i] > 0>> >>)
      ELSE Judge(<< <<"data_unchanged_without_recalculation", Ev.y = shown>> >>)
Curve(prm, x) == IF p.kind = "rabi" THEN ModelNoDecay(x, prm[1], prm[2], prm[3], prm[4]) ELSE Quadratic(x, prm[1], prm[2], prm[3])
Fit == Keep /\ Judge(<<
   <<"fit_follows_the_data", \A j \in 1..Len(p.qubits), i \in 1..p.n : Near(Curve(Ev.prm[j], p.x[i]), Ev.y[j][i], 3000)>>,
   <<"pi_amplitude_is_half_a_period", p.kind = "rabi" => \A j \in 1..Len(p.qubits) :
        Near(2 * Mul(Ev.pi[j], p.truth[j]), M, 6000) /\ Near(2 * Ev.pi2[j], Ev.pi[j], 3) /\ Ev.pi1[j] = Ev.pi[j] /\ Ev.pi21[j] = Ev.pi2[j]>>,
   <<"drag_amplitude_is_the_vertex", p.kind = "drag" => \A j \in 1..Len(p.qubits) :
        Near(Ev.drag[j], p.truth[j], 6000) /\ Ev.drag1[j] = Ev.drag[j]>>,
   <<"guess_is_near", \A j \in 1..Len(p.qubits) : IF p.kind = "rabi" THEN
          Near(Abs(Ev.guess[j][2]), p.truth[j], Div(6 * M, 5 * p.n * (p.x[2] - p.x[1])))
        ELSE LET v == p.truth[j]  far == IF v - p.x[1] > p.x[p.n] - v THEN p.x[1] ELSE p.x[p.n] IN
          (v >= p.x[1] /\ v <= p.x[p.n] /\ Abs(v) + 2 * (p.x[2] - p.x[1]) < Abs(far)) =>
             /\ Near(Ev.guess[j][2], v, p.x[2] - p.x[1])
             /\ (Ev.guess[j][1] > 0 <=> Ev.prm[j][1] > 0)
             /\ \E i \in 1..p.n : Near(Ev.guess[j][3], Ev.y[j][i], 2) /\ Near(Ev.guess[j][2], p.x[i], 2)>> >>)
Plays(ops) == SelectSeq(ops, LAMBDA o : o.k = "play")
Frames(ops) == SelectSeq(ops, LAMBDA o : o.k = "fc")
SameTurn(a, b) == Abs(Red(a - b)) <= 4
Gate == LET own == IF Ev.d \in DOMAIN Ev.ops THEN Ev.ops[Ev.d] ELSE <<>>
            d == Ev.pulse  pl == Plays(own)  grp == {Ev.grp[i] : i \in 1..Len(Ev.grp)} IN Keep /\ Judge(<<
   <<"updated_gate_is_the_named_rotation", Len(Frames(own)) + Len(pl) = Len(own)
        /\ SameU(GateOf(own), NamedGate(Ev.name, Ev.pr), 300)>>,
   <<"updated_gate_plays_the_given_pi2_pulse", Len(pl) = NPulses(Ev.name) /\ \A a \in 1..Len(pl) :
        /\ pl[a].t = (a - 1) * d.duration /\ Len(pl[a].smp) = d.duration
        /\ \A k \in 1..d.duration : CNear(pl[a].smp[k], DragSample(d.amp, d.beta, k - 1, d.duration, d.sigma), 12)>>,
   <<"frames_of_the_qubit_move_together", DOMAIN Ev.ops = grp /\ \A c \in grp :
        LET a == Frames(Ev.ops[c])  b == Frames(own) IN
        Len(a) = Len(b) /\ (c # Ev.d => Len(a) = Len(Ev.ops[c]))
        /\ \A k \in 1..Len(a) : a[k].t = b[k].t /\ SameTurn(a[k].f, b[k].f)>> >>)
Pulses == Keep /\ Judge(<<
   <<"device_pulse_parameters_recovered", Len(Ev.got) = Len(Ev.want) /\ \A k \in 1..Len(Ev.want) :
        LET a == Ev.got[k]  b == Ev.want[k] IN a.duration = b.duration
        /\ Near(a.amp, b.amp, 1000) /\ Near(a.sigma, b.sigma, 5000) /\ Near(a.beta, b.beta, 5000)>> >>)
Untouched == Keep /\ Judge(<< <<"other_gates_and_qubits_untouched", Ev.same>> >>)
Reject == Keep /\ Judge(<< <<"rejected_" \o Ev.what, Ev.got # "ok">> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> p' = Ev /\ store' = <<>> /\ shown' = <<>>
             [] Ev.ev = "sched" -> Sched
             [] Ev.ev = "names" -> Names
             [] Ev.ev = "add" -> AddR
             [] Ev.ev = "fit" -> Fit
             [] Ev.ev = "gate" -> Gate
             [] Ev.ev = "pulses" -> Pulses
             [] Ev.ev = "untouched" -> Untouched
             [] Ev.ev = "reject" -> Reject
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
