---------------------------- MODULE MCReadoutCal ----------------------------
(* Every pattern over a small device: groups are opened and extended one       *)
(* qubit at a time.  Each reachable pattern is a behaviour for replay.         *)
EXTENDS ReadoutCal, Json
CONSTANTS MaxQubit, MaxTotal
VARIABLE pat
Dev == 0..MaxQubit
Init == pat = <<>>
Small == pat = <<>> \/ NQ(pat) < MaxTotal
Open(q) == Small /\ pat' = Append(pat, <<q>>)
Extend(q) == /\ pat # <<>> /\ Small
             /\ pat' = [pat EXCEPT ![Len(pat)] = Append(@, q)]
Next == \E q \in Dev : Open(q) \/ Extend(q)
Spec == Init /\ [][Next]_pat

OK == pat # <<>> /\ Distinct(pat)
(* the label identifies the circuit                                            *)
LabelsUnique == OK => \A i, j \in 0..(NumCircuits(pat) - 1) :
                  LabelBits(pat, i) = LabelBits(pat, j) => i = j
(* every group sees each of its basis states equally often                     *)
Balanced == OK => \A g \in 1..Len(pat) : \A v \in 0..(Pow2(Len(pat[g])) - 1) :
     Cardinality({i \in 0..(NumCircuits(pat) - 1) : GroupVal(pat, g, i) = v})
       = Pow2(Largest(pat) - Len(pat[g]))
(* the textbook circuit for the design satisfies the judgement: X, measure     *)
Ideal(i) == LET f == Flat(pat) b == LabelBits(pat, i) IN
   SelectSeq([k \in 1..Len(f) |-> IF b[k] = 1 THEN U1(uX, f[k]) ELSE U1(uI, f[k])],
             LAMBDA g : TRUE)
   \o [k \in 1..Len(f) |-> [g |-> "M", q |-> <<f[k]>>, c |-> <<k - 1>>]]
Realisable == OK => \A i \in 0..(NumCircuits(pat) - 1) : PreparesAndReads(pat, i, Ideal(i))
(* and the judgement is not vacuous: another circuit's gates are refused       *)
Discriminates == OK => \A i, j \in 0..(NumCircuits(pat) - 1) :
                   PreparesAndReads(pat, i, Ideal(j)) => i = j
Report == pat # <<>> => Emit(ToJson(pat))
=============================================================================
