--------------------------------- MODULE MCGst ---------------------------------
(* Every choice of gate set from a table of one-qubit gates and SPAM words over it:     *)
(* when the Gram matrix is invertible, linear inversion returns the gate set in the      *)
(* gauge of the prepared states, and that gate set predicts longer sequences too.        *)
EXTENDS Gst, Json
CONSTANTS MaxSpam, Sizes
Table == [Id |-> UMat(uI), X90 |-> X90, Y90 |-> Y90, Z90 |-> UMat(uS), H |-> vH, T |-> UMat(uT), X |-> vX]
Names == <<"Id", "X90", "Y90", "Z90", "H", "T", "X">>
VARIABLES gates, spam, noisy, phase
vars == <<gates, spam, noisy, phase>>
(* depolarising with weight 1/10, mixed preparation and measurement                        *)
Damp(m) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = 1 THEN m[i][j] ELSE (m[i][j] * 9) \div 10]]
PT == [n \in DOMAIN Table |-> PTMof(Table[n])]
Truth == [G |-> [n \in DOMAIN Table |-> IF noisy THEN Damp(PT[n]) ELSE PT[n]],
          rho |-> IF noisy THEN <<R2, 20000, -30000, 650000>> ELSE <<R2, 0, 0, R2>>,
          E |-> IF noisy THEN <<R2 + 30000, 0, 10000, 640000>> ELSE <<R2, 0, 0, R2>>]
Subs == {s \in SUBSET (DOMAIN Table) : Cardinality(s) \in Sizes}
Words(gs) == UNION {[1..k -> gs] : k \in 1..2}
Fs == <<"F0", "F1", "F2", "F3">>
Init == gates \in Subs /\ spam = <<>> /\ noisy \in {TRUE, FALSE} /\ phase = "grow"
(* SPAM words are added in increasing order: every set of words appears once               *)
Pos(n) == CHOOSE i \in 1..Len(Names) : Names[i] = n
Rank(w) == FoldLeft(LAMBDA a, n : 8 * a + Pos(n), 0, w)
Grow(w) == /\ phase = "grow" /\ Len(spam) < 4 
           /\ Len(spam) > 0 => Rank(w) > Rank(spam[Len(spam)])
           /\ spam' = Append(spam, w) /\ UNCHANGED <<gates, noisy, phase>>
Close == phase = "grow" /\ Len(spam) = 4 /\ phase' = "done" /\ UNCHANGED <<gates, spam, noisy>>
SpamFn == [f \in {"F0", "F1", "F2", "F3"} |-> spam[CASE f = "F0" -> 1 [] f = "F1" -> 2 [] f = "F2" -> 3 [] OTHER -> 4]]
Next == (\E w \in Words(gates) : Len(w) <= MaxSpam /\ Grow(w)) \/ Close
Spec == Init /\ [][Next]_vars
Good == phase = "done" /\ PivotsBig(Gram(Truth, Fs, SpamFn), 60000)
LinInv == LET g == Gram(Truth, Fs, SpamFn)  gi == Inv4(g)
              e == [i \in 1..4 |-> Prob(Truth, SpamFn[Fs[i]])] IN
          TLCEval([G |-> [n \in gates |-> MM(gi, MkM(Truth, Fs, SpamFn, n))], E |-> e, rho |-> MV(gi, e)])
Inverts == Good => InGauge(Truth, LinInv, GaugeB(Truth, Fs, SpamFn), gates, 900)
Predicts == Good => LET L == LinInv IN \A a, b \in gates :
               Near(Prob(L, <<a, b>>), Prob(Truth, <<a, b>>), 2500)
Physical == spam = <<>> => \A n \in DOMAIN Table : TracePreserving(Truth.G[n], 5) /\ MapsToPositive(Truth.G[n], 30)
Composes == spam = <<>> => \A a, b \in DOMAIN Table : NearM(PTMof(MatMul(Table[b], Table[a])), MM(PT[b], PT[a]), 30)
Counted == phase = "done" => Cardinality(Tuples(gates, DOMAIN SpamFn)) = 4 + 16 + 16 * Cardinality(gates)
Report == (Good /\ ~noisy) => Emit(ToJson([gates |-> SetToSeq(gates), spam |-> spam]))
=============================================================================
