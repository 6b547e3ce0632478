------------------------------ MODULE MCExpvalMit ------------------------------
(* Two qubits with independent flip rates (quarters); every ordered qubit list   *)
(* and a set of observables.  Design facts: the tensored and the complete        *)
(* descriptions agree, marginal and ordering laws, estimator is unbiased.        *)
EXTENDS ExpvalMit, Json
CONSTANTS Flips, Lists
QLists == {<<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 0>>, <<1, 2>>, <<2, 0>>, <<2, 1>>}
VARIABLES as, qs, dg
vars == <<as, qs, dg>>
Qu(k) == k * 250000
Mat(pq) == <<<<M - Qu(pq[1]), Qu(pq[2])>>, <<Qu(pq[1]), M - Qu(pq[2])>>>>
Pairs == {pq \in Flips \X Flips : pq[1] + pq[2] < 4}
Diags(n) == IF n = 1 THEN {<<1, -1>>, <<2, 5>>} ELSE {<<1, -1, -1, 1>>, <<3, 0, -2, 1>>}
Init == as = <<>> /\ qs = <<>> /\ dg = <<>>
AddQubit(pq) == Len(as) < 3 /\ qs = <<>> /\ as' = Append(as, pq) /\ UNCHANGED <<qs, dg>>
Choose == /\ Len(as) >= 1 /\ qs = <<>>
          /\ \E s \in Lists : (\A i \in 1..Len(s) : s[i] < Len(as)) /\ qs' = s
             /\ dg' \in Diags(Len(s))
          /\ UNCHANGED as
Next == (\E pq \in Pairs : AddQubit(pq)) \/ Choose
Spec == Init /\ [][Next]_vars
As == [i \in 1..Len(as) |-> Mat(as[i])]
N == Len(as)
All == [i \in 1..N |-> i - 1]
Whole == SubLocal(As, All)
(* restricting the product matrix to a list = product over the list               *)
MarginalLaw == qs # <<>> => NearMat(SubFull(Whole, qs), SubLocal(As, qs), 8)
(* reversing the list permutes both indices                                         *)
OrderLaw == (Len(qs) = 2) =>
   LET sw(v) == 2 * (v % 2) + v \div 2   A == SubLocal(As, qs)  B == SubLocal(As, <<qs[2], qs[1]>>)
   IN \A r, c \in 0..3 : A[r + 1][c + 1] = B[sw(r) + 1][sw(c) + 1]
Stochastic == qs # <<>> => \A c \in 1..Dim(Len(qs)) :
   Near(SumSeq([r \in 1..Dim(Len(qs)) |-> SubLocal(As, qs)[r][c]]), M, 4)
(* exact inverse of one qubit, times det; unbiasedness: A^T (A^-T diag) = diag        *)
Inv1(pq) == LET d == 4 - pq[1] - pq[2] IN
  <<<<Div(Qu(4 - pq[2]), Qu(d)), -Div(Qu(pq[2]), Qu(d))>>, <<-Div(Qu(pq[1]), Qu(d)), Div(Qu(4 - pq[1]), Qu(d))>>>>
MitOf == SubLocal([i \in 1..N |-> Inv1(as[i])], qs)
Unbiased == qs # <<>> => LET c == Coeffs(MitOf, dg)  A == SubLocal(As, qs) IN
   \A x \in 1..Len(dg) : Near(SumSeq([y \in 1..Len(dg) |-> Mul(A[y][x], c[y])]), dg[x] * M, 60)
GammaLaw == (Len(qs) = 1) => Gamma(MitOf) >= M - 2
Report == qs # <<>> => Emit(ToJson([as |-> As, qs |-> qs, dg |-> dg]))
=============================================================================
