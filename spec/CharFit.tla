--------------------------------- MODULE CharFit ---------------------------------
(* Characterization fitters (C17): a fitter accumulates outcome tables per circuit     *)
(* (series, point) over its results, shows per qubit the fraction with the expected    *)
(* outcome of the qubit's own bit and fits the documented model.                        *)
EXTENDS Reals, CharCirc

(* a result is a sequence of [s, i, t]: series, point and outcome table                  *)
Tables(store, s, i) == FlattenSeq([r \in 1..Len(store) |->
     LET e == SelectSeq(store[r], LAMBDA x : x.s = s /\ x.i = i) IN IF e = <<>> THEN <<>> ELSE e[1].t])
Shots(store, s, i) == Total(Tables(store, s, i))
Good(store, s, i, q, ex) == CountWhere(Tables(store, s, i), LAMBDA b : b[q] = ex)
Frac(store, s, i, q, ex) == Micro(Good(store, s, i, q, ex), Shots(store, s, i))
Complete(store, ss, n) == \A k \in 1..Len(ss), i \in 1..n : Shots(store, ss[k], i) > 0
Expected(kind) == IF kind \in {"t2", "t2star", "zz"} THEN 0 ELSE 1

(* ---- models; x in micros, parameters in micros ------------------------------------------ *)
TurnsOf(rad) == Div(rad, TwoPi)                                \* radians to turns
ModelExp(x, a, tau, c) == Mul(a, ExpNeg(Div(x, tau))) + c
ModelOsc(x, a, tau, f, phi, c) == Mul(Mul(a, ExpNeg(Div(x, tau))), CosT(Mul(f, x) + TurnsOf(phi))) + c
ModelNoDecay(x, a, f, phi, c) == Mul(a, CosT(Mul(f, x) + TurnsOf(phi))) + c
(* -1/2 cos((th0 + err) x + pi/2 [+ err]) + c                                                *)
ModelCal(kind, x, err, c) ==
   LET th0 == IF kind \in {"ampcal1Q", "anglecal1Q"} THEN 250000 ELSE 500000
       ph == IF kind \in {"ampcal1Q", "anglecal1Q"} THEN TurnsOf(err) ELSE 0 IN
   c - CosT(Mul(th0, x) + Mul(TurnsOf(err), x) + 250000 + ph) \div 2
Model(kind, x, p) == CASE kind \in {"t1", "t2"} -> ModelExp(x, p[1], p[2], p[3])
                       [] kind = "t2star" -> ModelOsc(x, p[1], p[2], p[3], p[4], p[5])
                       [] kind = "zz" -> ModelNoDecay(x, p[1], p[2], p[3], p[4])
                       [] OTHER -> ModelCal(kind, x, p[1], p[2])
(* ---- the fit is a weighted least squares optimum ------------------------------------------ *)
(* sum of squared residuals in units of the spreads; far away somewhere is no candidate        *)
Chi(kind, xs, mean, sig, p) ==
   LET z == TLCEval([i \in 1..Len(xs) |-> Div(mean[i] - Model(kind, xs[i], p), sig[i])]) IN
   IF \E i \in 1..Len(z) : Abs(z[i]) > 6 * M THEN 1500 * M ELSE SumSeq([i \in 1..Len(z) |-> Mul(z[i], z[i])])
Near1(p, h) == {[p EXCEPT ![j] = @ + d * h[j]] : j \in 1..Len(p), d \in {-1, 1}}
Near2(p, h) == {[p EXCEPT ![j] = @ + d * h[j], ![j + 1] = @ + e * h[j + 1]] :
                   j \in 1..(Len(p) - 1), d \in {-1, 1}, e \in {-1, 1}}
Optimal(kind, xs, mean, sig, p, perr) ==
   LET best == TLCEval(Chi(kind, xs, mean, sig, p))
       hs == {[j \in 1..Len(p) |-> (perr[j] \div k) + 1] : k \in {1, 3}} IN
   \A h \in hs : \A r \in Near1(p, h) \cup Near2(p, h) :
       best - best \div 500 - 60000 <= Chi(kind, xs, mean, sig, r)
(* error bars of the two-parameter models: inverse of the weighted normal matrix, scaled by     *)
(* the mean squared residual; derivatives are taken per 1/16 of the angle                        *)
DTheta(kind, x, p) == Div(Model(kind, x, [p EXCEPT ![1] = @ + 2000]) - Model(kind, x, [p EXCEPT ![1] = @ - 2000]), 4000) \div 16
ErrorBars(kind, xs, mean, sig, p, perr) ==
   LET n == Len(xs)
       sm == CHOOSE s \in {sig[i] : i \in 1..n} : \A i \in 1..n : s <= sig[i]
       u == TLCEval([i \in 1..n |-> Div(sm, sig[i])])
       a == TLCEval([i \in 1..n |-> Mul(u[i], DTheta(kind, xs[i], p))])
       A == SumSeq([i \in 1..n |-> Mul(a[i], a[i])])
       B == SumSeq([i \in 1..n |-> Mul(a[i], u[i])])
       C == SumSeq([i \in 1..n |-> Mul(u[i], u[i])])
       det == Mul(A, C) - Mul(B, B)
       s2 == Chi(kind, xs, mean, sig, p) \div (n - 2)
       e1 == Div(16 * perr[1], sm)   e2 == Div(perr[2], sm)
       ok1 == Mul(Mul(e1, e1), Div(det, C))   ok2 == Mul(Mul(e2, e2), Div(det, A)) IN
   det > 20000 => Near(ok1, s2, 5000 + s2 \div 15) /\ Near(ok2, s2, 5000 + s2 \div 15)
RelNear(a, b) == Near(a, b, 1500 + Abs(b) \div 200)
=============================================================================
