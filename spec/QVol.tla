---------------------------------- MODULE QVol ----------------------------------
(* Quantum volume: ideal distributions are integer weights over the 2^d outcomes (index  *)
(* v+1 for outcome value v); measured data are outcome tables accumulated per circuit.    *)
EXTENDS Reals
(* ---- heavy outputs -------------------------------------------------------------------- *)
Sorted(w) == SortSeq(w, LAMBDA a, b : a < b)
TwiceMedian(w) == LET s == TLCEval(Sorted(w))  k == Len(w) \div 2 IN s[k] + s[k + 1]
Heavy(w) == LET m == TwiceMedian(w) IN {v \in 0..(Len(w) - 1) : 2 * w[v + 1] > m}
HeavyIdeal(w) == LET h == Heavy(w) IN Micro(SumOver(h, LAMBDA v : w[v + 1]), SumSeq(w))
(* ---- measured data -------------------------------------------------------------------- *)
Of(store, d, t) == SelectSeq(store, LAMBDA r : r.d = d /\ r.t = t)
HeavyCount(store, d, t, w) == LET h == TLCEval(Heavy(w))  rs == Of(store, d, t) IN
   SumSeq([i \in 1..Len(rs) |-> CountWhere(rs[i].counts, LAMBDA b : ValOf(b) \in h)])
ShotsOf(store, d, t) == LET rs == Of(store, d, t) IN SumSeq([i \in 1..Len(rs) |-> Total(rs[i].counts)])
NTrials(store) == IF store = <<>> THEN 0 ELSE Max({store[i].t : i \in 1..Len(store)}) + 1
HTrial(store, d, t, w) == Micro(HeavyCount(store, d, t, w), ShotsOf(store, d, t))
HMean(store, d, ws) == LET n == NTrials(store) IN
   Micro(SumSeq([t \in 1..n |-> HeavyCount(store, d, t - 1, ws[t])]), SumSeq([t \in 1..n |-> ShotsOf(store, d, t - 1)]))
IMean(ws) == SumSeq([t \in 1..Len(ws) |-> HeavyIdeal(ws[t])]) \div Len(ws)
(* s is the error of mean p over n trials                                                 *)
IsErr(s, p, n) == IsSqrt(s, Mul(p, M - p) \div n, 20)
(* ---- confidence: Phi(z) = (1 + erf(z/sqrt 2)) / 2 --------------------------------------- *)
(* Phi(z) - 1/2 = pdf(z) * (z + z^3/3 + z^5/15 + ...), 0 <= z <= 3                          *)
RECURSIVE PhiTerm(_, _, _, _)
PhiTerm(z2, k, term, acc) == IF k > 79 \/ term = 0 THEN acc
        ELSE LET t == Mul(term, z2) \div k IN PhiTerm(z2, k + 2, t, acc + t)
PhiPos(z) == LET z2 == Mul(z, z) IN
     500000 + Mul(Mul(398942, ExpNeg(z2 \div 2)), PhiTerm(z2, 3, z, z))
Phi(z) == IF z >= 3 * M THEN 998650 ELSE IF z <= -3 * M THEN 1350
          ELSE IF z >= 0 THEN PhiPos(z) ELSE M - PhiPos(-z)
PhiOK(v, z) == IF z >= 8 * M THEN v >= M - 1 /\ v <= M ELSE IF z >= 3 * M THEN v >= 998600 /\ v <= M ELSE IF z <= -3 * M THEN v >= 0 /\ v <= 1400
               ELSE Near(v, Phi(z), 300)
Z(p, s) == LET d == p - 666667 IN
   IF s = 0 THEN (IF d > 0 THEN 9 * M ELSE -9 * M)
   ELSE IF Abs(d) \div s >= 8 THEN (IF d > 0 THEN 9 * M ELSE -9 * M) ELSE Div(d, s)
(* ---- measured circuit against its ideal companion ---------------------------------------- *)
(* full: probabilities over n device qubits (micro); meas: sequence of <<qubit, clbit>>      *)
OutDist(full, meas, k) == [v \in 1..Pow2(k) |->
    SumSeq([x \in 1..Len(full) |->
       IF \A i \in 1..Len(meas) : Bit(x - 1, meas[i][1]) = Bit(v - 1, meas[i][2]) THEN full[x] ELSE 0])]
=============================================================================
