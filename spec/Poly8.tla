--------------------------------- MODULE Poly8 ---------------------------------
(* Phase polynomials: multilinear polynomials of degree at most three in n binary      *)
(* variables (x*x = x) with coefficients modulo 8.  A polynomial is a function from     *)
(* the sets of at most three variables 0..n-1 to 0..7; terms on more variables vanish   *)
(* (in the phase of a CNOT-dihedral element their coefficients are multiples of 8).     *)
EXTENDS Common
Monomials(n) == {S \in SUBSET (0..(n - 1)) : Cardinality(S) <= 3}
Zero(n) == [S \in Monomials(n) |-> 0]
One(n) == [S \in Monomials(n) |-> IF S = {} THEN 1 ELSE 0]
Var(n, i) == [S \in Monomials(n) |-> IF S = {i} THEN 1 ELSE 0]
Add8(p, q) == [S \in DOMAIN p |-> (p[S] + q[S]) % 8]
Scale(p, k) == [S \in DOMAIN p |-> (p[S] * (k % 8)) % 8]
Times(p, q) == TLCEval([S \in DOMAIN p |->
     SumOver({AB \in (SUBSET S) \X (SUBSET S) : AB[1] \cup AB[2] = S}, LAMBDA AB : p[AB[1]] * q[AB[2]]) % 8])
TimesMono(p, I) == [S \in DOMAIN p |-> IF ~(I \subseteq S) THEN 0
     ELSE SumOver({A \in SUBSET S : A \cup I = S}, LAMBDA A : p[A]) % 8]
(* value at a 0/1 vector (sequence, variable i at i+1)                                   *)
ValueAt(p, x) == SumOver({S \in DOMAIN p : \A i \in S : x[i + 1] % 2 = 1}, LAMBDA S : p[S]) % 8
(* polynomials put in the place of the variables                                         *)
Subst(p, n, qs) == FoldSet(LAMBDA S, acc : IF p[S] = 0 THEN acc
        ELSE Add8(acc, Scale(FoldSet(LAMBDA i, m : Times(m, qs[i + 1]), One(n), S), p[S])), Zero(n), DOMAIN p)
(* p_J: the parity of the variables in J, truncated:  sum over non-empty A of (-2)^(|A|-1) x^A *)
ParityPoly(n, J) == [S \in Monomials(n) |-> IF S = {} \/ ~(S \subseteq J) THEN 0
                 ELSE CASE Cardinality(S) = 1 -> 1 [] Cardinality(S) = 2 -> 6 [] OTHER -> 4]
WellFormed(idx, n) == /\ \A i \in 1..Len(idx) : idx[i] \in 0..(n - 1)
                      /\ \A i \in 1..(Len(idx) - 1) : idx[i] < idx[i + 1]
SetOf(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
