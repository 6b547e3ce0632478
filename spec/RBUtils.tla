--------------------------------- MODULE RBUtils ---------------------------------
(* Gate counts per Clifford and the conversions between errors per gate, coherence      *)
(* limits and errors per Clifford.  A circuit is a sequence of <<name, qubits>>; a gate  *)
(* mix is a sequence of <<name, count per Clifford>>, an error table of <<name, error>>. *)
EXTENDS Reals
On(q, g) == \E i \in 1..Len(g[2]) : g[2][i] = q
CountG(circ, name, q) == Len(SelectSeq(circ, LAMBDA g : g[1] = name /\ On(q, g)))
CountAll(seeds, name, q) == SumSeq([s \in 1..Len(seeds) |->
                              SumSeq([j \in 1..Len(seeds[s]) |-> CountG(seeds[s][j], name, q)])])
NCliffs(seeds, lens) == Len(seeds) * SumSeq([j \in 1..Len(lens) |-> lens[j] + 1])
Gpc(seeds, lens, name, q) == Micro(CountAll(seeds, name, q), NCliffs(seeds, lens))

Get(tab, name) == SumSeq([i \in 1..Len(tab) |-> IF tab[i][1] = name THEN tab[i][2] ELSE 0])
Has(tab, name) == \E i \in 1..Len(tab) : tab[i][1] = name
(* ---- documented conversions -------------------------------------------------------- *)
Epc1(mix, errs) == M - ProdSeq([i \in 1..Len(errs) |-> Pow(M - errs[i][2], Get(mix, errs[i][1]))])
Epg1Base(mix, epc) == Div(epc, Get(mix, "u2") + 2 * Get(mix, "u3"))
Alpha1(mix, errs) == ProdSeq([i \in 1..Len(errs) |-> Pow(M - 2 * errs[i][2], Get(mix, errs[i][1]))])
AlphaC1(a, b) == (a + b + 3 * Mul(a, b)) \div 5
Depol2(e) == M - (4 * e) \div 3
Epc2(mix0, mix1, e0, e1, epg2, name) ==
   (3 * (M - Mul(AlphaC1(Alpha1(mix0, e0), Alpha1(mix1, e1)), Pow(Depol2(epg2), Get(mix0, name))))) \div 4
Epg2(mix0, mix1, e0, e1, epc2, name) ==
   Div((3 * (M - Div(Depol2(epc2), AlphaC1(Alpha1(mix0, e0), Alpha1(mix1, e1))))) \div 4, Get(mix0, name))
(* ---- coherence limit: t / T in micro ------------------------------------------------- *)
Coh1(r1, r2) == (M - (2 * ExpNeg(r2) + ExpNeg(r1)) \div 3) \div 2
Coh2(r1, r2) == LET t1 == ExpNeg(r1[1]) + ExpNeg(r1[2]) + ExpNeg(r1[1] + r1[2])
                    t2 == ExpNeg(r2[1]) + ExpNeg(r2[2]) + ExpNeg(r2[1] + r1[2]) + ExpNeg(r2[2] + r1[1])
                    t4 == ExpNeg(r2[1] + r2[2])
                IN  (3 * (M - (t1 + 2 * t2 + 4 * t4) \div 15)) \div 4
=============================================================================
