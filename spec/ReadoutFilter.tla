----------------------------- MODULE ReadoutFilter -----------------------------
(* Readout mitigation: what it means for an answer x to mitigate the data b      *)
(* under assignment matrix A.  A is given per group, in that group's label order; *)
(* bit strings list bit 0 first and groups are laid out from bit 0.               *)
(* Entries of A are micros; counts of x are micros; b are plain counts.           *)
EXTENDS Common

Off(labs, g) == SumSeq([i \in 1..(g - 1) |-> Len(labs[i][1])])
PartOf(labs, g, b) == SubSeq(b, Off(labs, g) + 1, Off(labs, g) + Len(labs[g][1]))
Index(labels, b) == CHOOSE i \in 1..Len(labels) : labels[i] = b
(* probability (micro) to read r when c was prepared                               *)
Prob(As, labs, r, c) ==
    FoldLeft(LAMBDA acc, g : Mul(acc, As[g][Index(labs[g], PartOf(labs, g, r))]
                                           [Index(labs[g], PartOf(labs, g, c))]),
             M, [g \in 1..Len(As) |-> g])
Space(labs) == LET n == Off(labs, Len(labs) + 1) IN
               [v \in 1..Pow2(n) |-> BitsOf(v - 1, n)]
PMat(As, labs) == LET sp == Space(labs) IN
    [i \in 1..Len(sp) |-> [j \in 1..Len(sp) |-> Prob(As, labs, sp[i], sp[j])]]
(* dense vector of a table over the whole space                                     *)
Vec(labs, tab) == LET sp == Space(labs) IN [i \in 1..Len(sp) |-> CountOf(tab, sp[i])]
Apply(P, x) == [i \in 1..Len(x) |-> SumSeq([j \in 1..Len(x) |-> Mul(P[i][j], x[j])])]
(* exact inversion: P x = b                                                         *)
Inverts(P, x, b, tol) == LET y == Apply(P, x) IN
    \A i \in 1..Len(x) : x[i] # BAD /\ Near(y[i], b[i] * M, tol)
(* constrained optimum: x >= 0, sum x = N, and the Frank-Wolfe gap                  *)
(*   sum_i x_i g_i - N min_j g_j   with g the gradient of |P x - b|^2               *)
(* (normalised by N) bounds the distance to the optimum                              *)
Gap(P, x, b) ==
    LET n == SumSeq(b)
        xn == [i \in 1..Len(x) |-> x[i] \div n]
        y == Apply(P, xn)
        r == [i \in 1..Len(x) |-> y[i] - Micro(b[i], n)]
        g == [j \in 1..Len(x) |-> 2 * SumSeq([i \in 1..Len(x) |-> Mul(P[i][j], r[i])])]
        mn == Min({g[j] : j \in 1..Len(x)})
    IN  SumSeq([j \in 1..Len(x) |-> Mul(xn[j], g[j] - mn)])
Feasible(x, b, tol) == /\ \A i \in 1..Len(x) : x[i] # BAD /\ x[i] >= -tol
                       /\ Near(SumSeq(x), SumSeq(b) * M, tol)
Optimal(P, x, b, tol) == /\ Feasible(x, b, 20) /\ Gap(P, x, b) <= tol
=============================================================================
