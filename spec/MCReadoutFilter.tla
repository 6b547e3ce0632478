---------------------------- MODULE MCReadoutFilter ----------------------------
(* Two independent one-qubit readouts with flip probabilities p/4, q/4 and small  *)
(* counts: the design facts behind the judgements, and the inputs for replay.     *)
EXTENDS ReadoutFilter, Json
CONSTANTS MaxN, Flips
VARIABLES a1, a2, b
vars == <<a1, a2, b>>
Quarter(k) == k * 250000
Mat(pq) == <<<<M - Quarter(pq[1]), Quarter(pq[2])>>, <<Quarter(pq[1]), M - Quarter(pq[2])>>>>
OKpq == {pq \in Flips \X Flips : pq[1] + pq[2] # 4}
Init == a1 \in OKpq /\ a2 \in OKpq /\ b = <<0, 0, 0, 0>>
Observe(i) == SumSeq(b) < MaxN /\ b' = [b EXCEPT ![i] = @ + 1] /\ UNCHANGED <<a1, a2>>
Next == \E i \in 1..4 : Observe(i)
Spec == Init /\ [][Next]_vars
L1 == << <<0>>, <<1>> >>
Labs == <<L1, L1>>
P == PMat(<<Mat(a1), Mat(a2)>>, Labs)
(* exact inverse, times the determinants: column operations on each qubit          *)
Det(pq) == 4 - pq[1] - pq[2]
Inv(pq) == <<<<4 - pq[2], -pq[2]>>, <<-pq[1], 4 - pq[1]>>>>
XD == [i \in 1..4 |-> SumSeq([j \in 1..4 |->
        Inv(a1)[((i-1) % 2) + 1][((j-1) % 2) + 1] * Inv(a2)[((i-1) \div 2) + 1][((j-1) \div 2) + 1] * b[j]])]
X == [i \in 1..4 |-> Div(XD[i] * M, Det(a1) * Det(a2) * M)]
(* groupwise inversion is the inverse of the tensor product                         *)
Inverted == Inverts(P, X, b, 60)
KeepsTotal == SumSeq(XD) = SumSeq(b) * Det(a1) * Det(a2)
(* the gap certifies: when the inverse is physical it is the optimum, and any        *)
(* worse corner of the simplex has a strictly positive gap                            *)
Corner(i) == [j \in 1..4 |-> IF i = j THEN SumSeq(b) * M ELSE 0]
GapSound == (SumSeq(b) > 0 /\ \A i \in 1..4 : XD[i] * Det(a1) * Det(a2) >= 0)
            => /\ Optimal(P, X, b, 60)
               /\ \A i \in 1..4 : (X # Corner(i) /\ ~Inverts(P, Corner(i), b, 100000))
                                     => Gap(P, Corner(i), b) > 1000
Report == (SumSeq(b) = MaxN) => Emit(ToJson([a |-> <<Mat(a1), Mat(a2)>>, b |-> b]))
=============================================================================
