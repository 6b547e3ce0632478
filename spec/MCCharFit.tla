------------------------------- MODULE MCCharFit -------------------------------
(* Histories of adding results (complete or partial), with or without recalculation   *)
EXTENDS CharFit, Json
CONSTANTS MaxOps
VARIABLES store, shown, log
vars == <<store, shown, log>>
Pts == 1..2
T(a, b) == << <<<<0, 0>>, a>>, <<<<1, 0>>, b>>, <<<<1, 1>>, 1>> >>
Res(k) == CASE k = 1 -> <<[s |-> 0, i |-> 1, t |-> T(1, 0)], [s |-> 0, i |-> 2, t |-> T(2, 1)]>>
            [] k = 2 -> <<[s |-> 0, i |-> 1, t |-> T(3, 2)]>>
            [] k = 3 -> <<[s |-> 0, i |-> 2, t |-> T(0, 5)]>>
Show(st) == [i \in Pts |-> [q \in 1..2 |-> Frac(st, 0, i, q, 1)]]
Init == store = <<>> /\ shown = <<>> /\ log = <<>>
Add(k, re) == /\ re => Complete(Append(store, Res(k)), <<0>>, 2)
              /\ store' = Append(store, Res(k))
              /\ shown' = IF re THEN Show(store') ELSE shown
              /\ log' = Append(log, [k |-> k, re |-> re])
Next == Len(log) < MaxOps /\ \E k \in 1..3, re \in {TRUE, FALSE} : Add(k, re)
Spec == Init /\ [][Next]_vars
FractionsAreProbabilities == shown # <<>> => \A i \in Pts, q \in 1..2 : shown[i][q] \in 0..M
OrderIrrelevant == Len(store) >= 2 => \A i \in Pts, q \in 1..2 :
      Good(store, 0, i, q, 1) = Good(Reverse(store), 0, i, q, 1)
Complementary == Complete(store, <<0>>, 2) => \A i \in Pts, q \in 1..2 :
      Good(store, 0, i, q, 1) + Good(store, 0, i, q, 0) = Shots(store, 0, i)
ModelsAgree == /\ Near(ModelOsc(1500000, 500000, 2000000, 0, 0, 500000), ModelExp(1500000, 500000, 2000000, 500000), 10)
               /\ Near(ModelCal("ampcal1Q", 0, 0, 500000), 500000, 10)
               /\ Near(ModelCal("ampcalcx", M, 0, 500000), 500000, 10)
               \* closed forms: 1/2 + 1/2 sin(err) at x = 0
               /\ \A e \in {0, 100000, -200000} : Near(2 * ModelCal("ampcal1Q", 0, e, 500000), M + SinT(TurnsOf(e)), 30)
Report == Len(log) = MaxOps => Emit(ToJson([log |-> log]))
=============================================================================
