------------------------------ MODULE MCTomoCirc ------------------------------
(* Build a user circuit gate by gate on two qubits, then choose qubit lists and   *)
(* labels.  Laws: outcome probabilities sum to one; preparing and measuring the    *)
(* same basis without a circuit is deterministic; the six states are distinct.     *)
EXTENDS TomoCirc, Json
CONSTANTS MaxLen
VARIABLES word, mq, pq, ml, pl
vars == <<word, mq, pq, ml, pl>>
Alphabet == {U1(uH, 0), U1(uT, 0), U1(uS, 1), U1(uH, 1), CXg(0, 1), CXg(1, 0), U1(uX, 0)}
Lists == {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>}
Init == word = <<>> /\ mq = <<>> /\ pq = <<>> /\ ml = <<>> /\ pl = <<>>
Grow == Len(word) < MaxLen /\ mq = <<>> /\ (\E g \in Alphabet : word' = Append(word, g))
        /\ UNCHANGED <<mq, pq, ml, pl>>
Pick == /\ mq = <<>>
        /\ \E a \in Lists, b \in Lists : Len(a) = Len(b) /\ mq' = a /\ pq' = b
             /\ ml' \in [1..Len(a) -> {"X", "Y", "Z"}]
             /\ pl' \in [1..Len(a) -> {"Zm", "Xp", "Yp", "Xm", "Ym"}]
        /\ UNCHANGED word
Next == Grow \/ Pick
Spec == Init /\ [][Next]_vars
Done == mq # <<>>
Final == Run(Ket(2, 0), Preps(pl, pq) \o word \o Rots(ml, mq))
SumsToOne == Done => LET s == Final IN
   /\ SumSeq([i \in 1..4 |-> NormA(s.v[i])[1]]) = Pow2(s.k)
   /\ SumSeq([i \in 1..4 |-> NormA(s.v[i])[2]]) = 0
Axis(lab) == CASE lab \in {"Xp", "Xm"} -> "X" [] lab \in {"Yp", "Ym"} -> "Y" [] OTHER -> "Z"
Value(lab) == IF lab \in {"Xm", "Ym", "Zm"} THEN 1 ELSE 0
(* measuring the prepared axis on the prepared qubit is deterministic; any other axis is even  *)
Deterministic == (Done /\ word = <<>> /\ mq = pq) => \A i \in 1..Len(mq) :
   LET p1 == ProbVal(Run(Ket(1, 0), PrepGates(pl[i], 0) \o MeasGates(ml[i], 0)), 1) IN
   IF Axis(pl[i]) = ml[i] THEN p1 = Value(pl[i]) * M ELSE p1 = M \div 2
SicOverlap == \A a, b \in {"S0", "S1", "S2", "S3"} : a # b =>
   CNear(Tr2(Rho1(CRun(CKet(1, 0), PrepGates(a, 0))), Rho1(CRun(CKet(1, 0), PrepGates(b, 0)))), <<333333, 0>>, 20)
Report == (Done /\ Len(word) = MaxLen /\ Len(mq) = 2 /\ ml[1] = "Y" /\ ml[2] # "Y"
          /\ pl[1] \in {"Xm", "Yp"} /\ pl[2] \in {"Zm", "Ym"}) => Emit(ToJson([word |-> word, mq |-> mq, pq |-> pq, ml |-> ml, pl |-> pl]))
=============================================================================
