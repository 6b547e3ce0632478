--------------------------------- MODULE MCQVol ---------------------------------
(* Histories of adding ideal distributions and measured results: additions of measured    *)
(* data before the ideal distribution, and of a second ideal distribution, are rejected   *)
(* and change nothing.                                                                      *)
EXTENDS QVol, Json
CONSTANTS MaxOps
VARIABLES ideal, store, log
vars == <<ideal, store, log>>
Circs == {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<1, 1>>}
W(c) == CASE c = <<1, 0>> -> <<3, 1>> [] c = <<1, 1>> -> <<1, 1>>
          [] c = <<2, 0>> -> <<1, 4, 2, 3>> [] OTHER -> <<5, 2, 2, 1>>
Chunks == {<<<<1, 0>>, <<2, 0>>>>, <<<<2, 1>>, <<1, 1>>>>}
Cnt(c, k) == IF c[1] = 1 THEN << <<BitsOf(0, 1), 2 + k>>, <<BitsOf(1, 1), 1>> >>
             ELSE << <<BitsOf(1, 2), 1>>, <<BitsOf(3, 2), k + 1>>, <<BitsOf(0, 2), 2>> >>
Rec(c, k) == [d |-> c[1], t |-> c[2], counts |-> Cnt(c, k)]
Has(cs) == \A i \in 1..Len(cs) : cs[i] \in ideal
Init == ideal = {} /\ store = <<>> /\ log = <<>>
AddIdeal(cs) == /\ IF \E i \in 1..Len(cs) : cs[i] \in ideal THEN UNCHANGED ideal
                   ELSE ideal' = ideal \cup {cs[i] : i \in 1..Len(cs)}
                /\ UNCHANGED store
                /\ log' = Append(log, [op |-> "ideal", recs |-> [i \in 1..Len(cs) |-> [d |-> cs[i][1], t |-> cs[i][2], w |-> W(cs[i])]]])
AddData(cs, k) == LET rs == [i \in 1..Len(cs) |-> Rec(cs[i], k)] IN
                /\ store' = IF Has(cs) THEN store \o rs ELSE store
                /\ UNCHANGED ideal
                /\ log' = Append(log, [op |-> "data", recs |-> rs])
Next == Len(log) < MaxOps /\ \E cs \in Chunks : AddIdeal(cs) \/ \E k \in {0, 3} : AddData(cs, k)
Spec == Init /\ [][Next]_vars
OnlyKnown == \A i \in 1..Len(store) : <<store[i].d, store[i].t>> \in ideal
Bound == \A c \in ideal : LET n == ShotsOf(store, c[1], c[2])  h == HeavyCount(store, c[1], c[2], W(c)) IN h >= 0 /\ h <= n
AtMostHalf == \A c \in Circs : 2 * Cardinality(Heavy(W(c))) <= Len(W(c))
HeavyAboveRest == \A c \in Circs : \A v \in Heavy(W(c)), u \in 0..(Len(W(c)) - 1) \ Heavy(W(c)) : W(c)[v + 1] > W(c)[u + 1]
IdealLaw == \A c \in Circs : Heavy(W(c)) # {} => HeavyIdeal(W(c)) * 1 >= 500000 - 1
PhiLaw == log = <<>> => /\ Near(Phi(0), 500000, 2) /\ Near(Phi(M), 841345, 20) /\ Near(Phi(2 * M), 977250, 30)
          /\ Near(Phi(-M), 158655, 20) /\ Near(Phi(1500000), 933193, 20) /\ Near(Phi(2900000), 998134, 60)
Report == (Len(log) = MaxOps /\ store # <<>>) => Emit(ToJson([log |-> log]))
=============================================================================
