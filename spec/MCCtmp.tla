--------------------------------- MODULE MCCtmp ---------------------------------
(* Every choice of a few rates of the standard generators: the noise is stochastic,     *)
(* its logarithm and inverse are what they should be, the signed Poisson sampling has    *)
(* the inverse as its mean, and (up to two qubits) exact calibration data return          *)
(* exactly the rates they were made from.                                                 *)
EXTENDS Ctmp, Json
CONSTANTS Ns, RateSet, MaxOn
VARIABLES n, gens, rates, G, A          \* G and A are functions of the others, kept for speed
vars == <<n, gens, rates, G, A>>
Key(g) == SumSeq([i \in 1..Len(g.c) |-> 64 * g.c[i] + 4 * g.b[i] + 2 * g.a[i]]) + 1000 * Len(g.c) + 7 * g.c[1] + g.b[1]
Qs == [i \in 1..n |-> i - 1]
Init == n \in Ns /\ gens = <<>> /\ rates = <<>> /\ G = GenMat(<<>>, <<>>, Qs) /\ A = ExpM(G)
Add(g, r) == /\ Len(gens) < MaxOn /\ \A i \in 1..Len(gens) : gens[i] # g
             /\ gens # <<>> => Key(g) >= Key(gens[Len(gens)])
             /\ gens' = Append(gens, g) /\ rates' = Append(rates, r) /\ UNCHANGED n
             /\ G' = GenMat(gens', rates', Qs) /\ A' = ExpM(G')
Next == \E g \in StdSet(n), r \in RateSet : Add(g, r)
Spec == Init /\ [][Next]_vars
ColumnsSumToZero == \A j \in 1..Len(G) : SumSeq([i \in 1..Len(G) |-> G[i][j]]) = 0
NoiseIsStochastic == Stochastic(A, 20)
LogOfExp == Small(A) => NearN(LogM(A), G, 60)
InverseIsExpOfMinus == LET I == MMN(ExpM(Neg(G)), A) IN NearN(I, EyeN(Len(A)), 60)
(* e^{2 gamma} sum over k of Poisson(gamma, k) (-1)^k B^k = exp(-G), B = 1 + G / gamma             *)
Sampling == LET ga == Strength(G) IN gens # <<>> =>
   LET B == TLCEval([i \in 1..Len(G) |-> [j \in 1..Len(G) |-> (IF i = j THEN M ELSE 0) + Div(G[i][j], ga)]])
       s == FoldLeft(LAMBDA acc, k : LET t == Over(MMN(acc.t, [i \in 1..Len(B) |-> [j \in 1..Len(B) |-> -Mul(ga, B[i][j])]]), k) IN
                TLCEval([t |-> t, s |-> Lin(acc.s, M, t)]), [t |-> EyeN(Len(B)), s |-> EyeN(Len(B))], [k \in 1..14 |-> k]).s
   IN Stochastic(B, 30) /\ NearN(Over([i \in 1..Len(s) |-> [j \in 1..Len(s) |-> Mul(Exp(ga), s[i][j])]], 1), ExpM(Neg(G)), 200)
Cal == [x \in 1..Dim(n) |-> <<x - 1, [y \in 1..Dim(n) |-> <<y - 1, Clamp(A[y][x])>>]>>]
RateOf(g) == LET k == {i \in 1..Len(gens) : gens[i] = g} IN SumOver(k, LAMBDA i : rates[i])
RecoversRates == (n <= 2 /\ Small(A)) => LET Gs == LocalGs(Cal, n) IN
      \A g \in StdSet(n) : Near(RateFrom(Gs, n, g), RateOf(g), 80)
SetSize == Cardinality(StdSet(n)) = 2 * n * n
Report == gens # <<>> => Emit(ToJson([n |-> n, gens |-> gens, rates |-> rates]))
=============================================================================
