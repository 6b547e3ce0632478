------------------------------- MODULE MCPulseCal -------------------------------
(* (a) every small schedule request: the drive ends when the acquisition starts, the    *)
(* pulses scale with the amplitude and a DRAG pair cancels;                              *)
(* (b) every short history of averaged results: the shot-weighted average is the average  *)
(* over the pooled shots, and projecting a line on itself keeps its distances.            *)
EXTENDS PulseCal, Json
CONSTANTS MaxOps, QLists, Widths
QL == {<<0>>, <<2>>, <<1, 0>>, <<0, 3>>, <<3, 1, 2>>}
VARIABLES p, store, log, pr
vars == <<p, store, log, pr>>
Eighths == 0..7
Xs == {<<100000>>, <<-500000, 0, 300000>>, <<0, 250000, 900000, 1000000>>}
Groups == {"single", "joint", "pairs"}
Req == {[mode |-> "sched", kind |-> k, qubits |-> q, x |-> x, w |-> w, sigma |-> s, grp |-> g,
         amps |-> [j \in 1..Len(q) |-> 100000 * (j + 1)]] :
        k \in {"rabi", "drag"}, q \in QLists, x \in Xs, w \in Widths, s \in {1500000, 4000000}, g \in Groups}
Vals == << <<M, 2 * M>>, <<-M, 500000>>, <<0, -M>> >>
Res(k) == CASE k = 1 -> <<[i |-> 1, shots |-> 2, v |-> <<Vals[1], Vals[2]>>], [i |-> 2, shots |-> 3, v |-> <<Vals[3], Vals[1]>>]>>
            [] k = 2 -> <<[i |-> 2, shots |-> 5, v |-> <<Vals[2], Vals[2]>>]>>
            [] k = 3 -> <<[i |-> 1, shots |-> 4, v |-> <<Vals[3], Vals[3]>>]>>
Init == /\ store = <<>> /\ log = <<>>
        /\ \/ p = [mode |-> "gate"] /\ pr \in [1..3 -> Eighths]
           \/ pr = <<>> /\ p \in Req \cup {[mode |-> "hist", avg |-> a, qubits |-> q] : a \in {TRUE, FALSE}, q \in {<<0>>, <<1>>, <<1, 0>>}}
Add(k, re) == /\ p.mode = "hist" /\ Len(log) < MaxOps
              /\ re => Covered(Append(store, Res(k)), 2)
              /\ store' = Append(store, Res(k)) /\ log' = Append(log, [k |-> k, re |-> re]) /\ UNCHANGED <<p, pr>>
Next == \E k \in 1..3, re \in {TRUE, FALSE} : Add(k, re)
Spec == Init /\ [][Next]_vars
Sched == p.mode = "sched"
DriveEndsAtAcquisition == Sched => \A i \in 1..Len(p.x), j \in 1..Len(p.qubits) :
   LET d == Drives(p, i, j) IN d[Len(d)][1] + p.w = DriveEnd(p)
                               /\ \A a \in 2..Len(d) : d[a][1] = d[a - 1][1] + p.w
DragPairCancels == (Sched /\ p.kind = "drag") => LET d == Drives(p, 1, 1) IN \A k \in 0..(p.w - 1) :
   LET a == Sample(p, d[1], k)  b == Sample(p, d[2], k) IN Near(a[1], -b[1], 3) /\ Near(a[2], -b[2], 3)
Symmetric == Sched => \A k \in 0..(p.w - 1) : Near(Shape(k, p.w, p.sigma), Shape(p.w - 1 - k, p.w, p.sigma), 3)
                                              /\ Shape(k, p.w, p.sigma) \in -2..M
(* pooled: the average of the multiset of all shots                                          *)
Pooled(i, s) == LET es == AllOf(store, i)
                    all == FlattenSeq([e \in 1..Len(es) |-> [k \in 1..es[e].shots |-> es[e].v[s]]]) IN
   <<Quo(SumSeq(MapS(all, LAMBDA v : v[1])), Len(all)), Quo(SumSeq(MapS(all, LAMBDA v : v[2])), Len(all))>>
WeightedIsPooled == (p.mode = "hist" /\ Covered(store, 2)) => \A i \in 1..2, s \in 1..2 : Pooled(i, s) = IQMean(store, i, s)
(* a line through the origin at any quadrant: the signed position on it is a signal             *)
Dirs == {<<M, 0>>, <<0, M>>, <<600000, 800000>>, <<600000, -800000>>, <<-R2, R2>>}
LineSignal == Sched => \A u \in Dirs : LET t == <<-300000, 100000, 200000>>
                 z == [j \in 1..3 |-> <<Mul(t[j], u[1]) + 400000, Mul(t[j], u[2]) - M>>] IN
              Collinear(z, 30) /\ SignalOf(t, z, 30) /\ SignalOf([j \in 1..3 |-> -t[j]], z, 30)
(* (c) the documented words of frame changes and pi/2 pulses are the named gates                    *)
GateWords == p.mode = "gate" => LET a == [k \in 1..3 |-> pr[k] * (M \div 8)] IN
   \A g \in {"u2", "u3"} : SameU(GateOf(GateOps(g, a)), NamedGate(g, a), 100)
Report == (Sched \/ p.mode = "gate" \/ Len(log) = MaxOps) => Emit(ToJson([p |-> p, log |-> log, pr |-> pr]))
=============================================================================
