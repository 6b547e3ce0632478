-------------------------------- MODULE MCPoly8 --------------------------------
(* The operations as laws of values: what the library computes on coefficients must be  *)
(* what one gets by computing on values.  Explored from the variables by adding,         *)
(* multiplying, scaling and substituting.                                                *)
EXTENDS Poly8, Json
CONSTANTS N, MaxOps
VARIABLES p, q, log
vars == <<p, q, log>>
Points == [1..N -> {0, 1}]
Init == \E i \in 0..(N - 1) : p = Var(N, i) /\ q = One(N) /\ log = <<[op |-> "var", i |-> i]>>
Do(r, e) == p' = r /\ q' = p /\ log' = Append(log, e)
Next == /\ Len(log) < MaxOps
        /\ \/ \E i \in 0..(N - 1) : \/ Do(Add8(p, Var(N, i)), [op |-> "addvar", i |-> i])
                                    \/ Do(Times(Add8(p, One(N)), Var(N, i)), [op |-> "shiftmul", i |-> i])
           \/ Do(Add8(p, q), [op |-> "add", i |-> 0])
           \/ Do(Times(p, q), [op |-> "mul", i |-> 0])
           \/ \E k \in {3, 4} : Do(Scale(p, k), [op |-> "scale", i |-> k])
           \/ \E J \in SUBSET (0..(N - 1)) : Cardinality(J) > 1 /\ Do(Add8(p, ParityPoly(N, J)), [op |-> "parity", i |-> SumOver(J, LAMBDA j : Pow2(j))])
Spec == Init /\ [][Next]_vars
(* with at most three variables nothing is truncated: values follow the operations        *)
AddLaw == \A x \in Points : ValueAt(Add8(p, q), x) = (ValueAt(p, x) + ValueAt(q, x)) % 8
MulLaw == N <= 3 => \A x \in Points : ValueAt(Times(p, q), x) = (ValueAt(p, x) * ValueAt(q, x)) % 8
MonoLaw == \A S \in Monomials(N) : TimesMono(p, S) = Times(p, [T \in Monomials(N) |-> IF T = S THEN 1 ELSE 0])
SubstLaw == Subst(p, N, [i \in 1..N |-> Var(N, i - 1)]) = p
Commutes == Times(p, q) = Times(q, p)
ParityLaw == log # <<>> => \A J \in SUBSET (0..(N - 1)), x \in Points : (Cardinality(J) <= 3) =>
               ValueAt(ParityPoly(N, J), x) = Cardinality({j \in J : x[j + 1] = 1}) % 2
InRange == \A S \in DOMAIN p : p[S] \in 0..7
Report == Len(log) = MaxOps => Emit(ToJson([poly |-> TRUE, n |-> N, log |-> log]))
=============================================================================
