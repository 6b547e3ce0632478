-------------------------------- MODULE MCAccFit --------------------------------
(* All histories of MaxOps operations on two fitters: single runs with 2, 3 or 4      *)
(* traps that succeed, fail one trap or are not single-shot, and bounds.               *)
EXTENDS AccFit, Json
CONSTANT MaxOps
VARIABLES f, log, flag
vars == <<f, log, flag>>
Fs == {1, 2}
Thetas == {50000, 500000}
One(b) == << <<b, 1>> >>
RunOf(t, kind, v) == [v |-> v, circ |-> [i \in 1..(t + 1) |->
    CASE kind = "multi" /\ i = 1 -> [raw |-> << <<<<1>>, 2>> >>, postp |-> <<1>>]
      [] kind = "bad" /\ i = (IF v = t THEN 1 ELSE t + 1) -> [raw |-> One(<<0>>), postp |-> <<1>>]
      [] kind = "target" /\ i = v + 1 -> [raw |-> One(<<0>>), postp |-> <<1>>]
      [] OTHER -> [raw |-> One(<<1>>), postp |-> <<1>>]]]
Runs == {<<2, "good", 0>>, <<3, "good", 0>>, <<3, "bad", 1>>, <<3, "bad", 3>>, <<3, "target", 2>>, <<4, "good", 4>>, <<4, "bad", 0>>, <<3, "multi", 1>>}
Init == f = [i \in Fs |-> <<>>] /\ log = <<>> /\ flag = "none"
DoRun == \E i \in Fs, r \in Runs :
    LET run == RunOf(r[1], r[2], r[3])  ok == Admissible(f[i], run) IN
    /\ f' = IF ok THEN [f EXCEPT ![i] = Append(@, run)] ELSE f
    /\ flag' = IF ok THEN (IF Accepted(run) THEN "acc" ELSE "rej") ELSE "err"
    /\ log' = Append(log, [op |-> "run", f |-> i, t |-> r[1], kind |-> r[2], v |-> r[3]])
DoBound == \E i \in Fs, th \in Thetas :
    /\ log' = Append(log, [op |-> "bound", f |-> i, theta |-> th]) /\ UNCHANGED <<f, flag>>
Next == Len(log) < MaxOps /\ (DoRun \/ DoBound)
Spec == Init /\ [][Next]_vars
TrapsAgree == \A i \in Fs : \A a, b \in 1..Len(f[i]) : NTraps(f[i][a]) = NTraps(f[i][b]) /\ NTraps(f[i][a]) >= 3
OneOutputPerAcceptedRun == \A i \in Fs : Len(Outputs(f[i])) = NAcc(f[i]) /\ NAcc(f[i]) <= Len(f[i])
BoundLaws == \A i \in Fs, th \in Thetas : NAcc(f[i]) > 0 =>
    /\ Bound(f[i], th, M) <= M /\ Bound(f[i], th, M) >= 1700000 \div (NTraps(f[i][1]) + 1)
    /\ \A t2 \in Thetas : th <= t2 => Bound(f[i], th, M) <= Bound(f[i], t2, M)
    /\ Conf(f[i], th) <= M
TargetsAlwaysAccepted == flag = "rej" => \E i \in Fs : \E k \in 1..Len(f[i]) : ~Accepted(f[i][k])
Report == Len(log) = MaxOps => Emit(ToJson([log |-> log]))
=============================================================================
