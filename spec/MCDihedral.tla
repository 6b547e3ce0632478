------------------------------ MODULE MCDihedral ------------------------------
(* The group generated by CNOT, T and X.  VIEW identifies elements, so the state    *)
(* space is the whole group; every element is reached with one shortest word.        *)
EXTENDS Dihedral, Json
CONSTANTS N
VARIABLES d, word
vars == <<d, word>>
Init == d = Id(N) /\ word = <<>>
Op(w, e) == d' = e /\ word' = Append(word, w)
Next == \/ \E q \in 0..(N - 1) : Op(<<"phase", 1, q>>, Phase(d, 1, q))
        \/ \E q \in 0..(N - 1) : Op(<<"flip", q>>, Flip(d, q))
        \/ \E a, b \in 0..(N - 1) : a # b /\ Op(<<"cnot", a, b>>, Cnot(d, a, b))
Spec == Init /\ [][Next]_vars
View == d
GroupLaws == /\ InGroup(d) /\ InGroup(Adj(d)) /\ InGroup(Conj(d)) /\ InGroup(Transp(d))
             /\ Seq2(d, Adj(d)) = Id(N) /\ Seq2(Adj(d), d) = Id(N)
             /\ Adj(Adj(d)) = d /\ Transp(Transp(d)) = d
             /\ Seq2(d, Id(N)) = d /\ Seq2(Id(N), d) = d
(* appending gates is composing with the gate's element; (ab)* = b* a*                  *)
StepLaws == \A q \in 0..(N - 1) : LET t == Phase(Id(N), 1, q)  x == Flip(Id(N), q) IN
             /\ Phase(d, 1, q) = Seq2(d, t) /\ Flip(d, q) = Seq2(d, x)
             /\ Adj(Seq2(d, t)) = Seq2(Adj(t), Adj(d))
             /\ PowD(d, 3) = Seq2(Seq2(d, d), d)
             /\ Tens(d, Id(1)) = Tens(d, Seq2(Flip(Id(1), 0), Flip(Id(1), 0)))
Report == Emit(ToJson([n |-> N, word |-> word]))
=============================================================================
