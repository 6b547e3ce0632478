----------------------------- MODULE MCCalMatrix -----------------------------
(* All histories of additions over a small pool of results.                    *)
EXTENDS CalMatrix, Json
CONSTANTS MaxSteps
VARIABLES sizes, tally, built, hist
vars == <<sizes, tally, built, hist>>
(* pool for sizes <<1,1>> and <<2>>: same bit width, so the same results        *)
Exp(a, b, n1, n2) == << <<a, b>>, << << <<a, b>>, n1 >>, << <<1 - a, b>>, n2 >> >> >>
Pool == << << Exp(0, 0, 5, 2), Exp(1, 1, 3, 1) >>,
           << Exp(1, 1, 7, 2) >>,
           << Exp(0, 1, 2, 0), Exp(0, 0, 1, 4) >> >>
(* an addition is a sequence of pool indices handed over in one call            *)
Calls == {<<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 3>>}
Init == /\ sizes \in {<<1, 1>>, <<2>>}
        /\ tally = EmptyTally(sizes) /\ built = Unset /\ hist = <<>>
Results(c) == [i \in 1..Len(c) |-> Pool[c[i]]]
Add(c, rebuild) ==
    /\ Len(hist) < MaxSteps
    /\ tally' = AddResults(sizes, tally, Results(c))
    /\ built' = IF c = <<>> THEN built ELSE IF rebuild THEN tally' ELSE built
    /\ hist' = Append(hist, <<c, IF rebuild THEN 1 ELSE 0>>)
    /\ UNCHANGED sizes
Next == \E c \in Calls, rb \in BOOLEAN : Add(c, rb)
Spec == Init /\ [][Next]_vars

Flat == FlattenSeq([i \in 1..Len(hist) |-> hist[i][1]])
Labels(g) == AllLabels(sizes[g])
(* the tally is a function of the multiset of results: order, grouping into     *)
(* calls and deferral do not matter                                              *)
OrderIrrelevant == tally = AddResults(sizes, EmptyTally(sizes), Results(Reverse(Flat)))
Stochastic == built # Unset => \A g \in 1..Len(sizes) :
   LET m == Matrix(built[g], Labels(g)) IN
   \A j \in 1..Len(m) : LET s == SumSeq([i \in 1..Len(m) |-> m[i][j]]) IN
       (ColSum(built[g], sizes[g], j - 1) = 0 /\ s = 0) \/ Near(s, M, 4)
FidelityBounds == built # Unset => \A g \in 1..Len(sizes) :
   LET f == Fidelity(built[g], sizes[g], [i \in 1..Pow2(sizes[g]) |-> <<Labels(g)[i]>>])
   IN  f >= 0 /\ f <= M
(* restricting to all qubits is the matrix itself; a marginal of a column is a   *)
(* distribution                                                                   *)
SubsetIdentity == (built # Unset /\ sizes = <<2>>) =>
   /\ NearMat(SubMatrix(built[1], 2, <<1, 2>>), Matrix(built[1], Labels(1)), 1)
   /\ SubEntry(built[1], 2, <<2>>, <<0>>, <<0>>) + SubEntry(built[1], 2, <<2>>, <<1>>, <<0>>) <= M + 2
NeverBuiltEarly == built # Unset => \E i \in 1..Len(hist) : hist[i][2] = 1 /\ hist[i][1] # <<>>
Report == (hist # <<>>) =>
            Emit(ToJson([sizes |-> sizes, hist |-> hist, pool |-> Pool]))
=============================================================================
