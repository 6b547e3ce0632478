-------------------------------- MODULE PulseCal --------------------------------
(* Pulse calibrations (C22): Rabi and DRAG schedules and the fitters of averaged or     *)
(* single-shot IQ data.                                                                 *)
EXTENDS CharFit

(* ---- the drive pulses: sample k (0-based) of a Gaussian that vanishes one sample      *)
(* outside its ends; amplitude and beta in micros, width in samples, sigma in micros     *)
GaussAt(d2, s2) == ExpNeg(Div(d2, 2 * s2))                       \* exp(-d^2 / 2 sigma^2)
Shape(k, w, sg) == LET s2 == Mul(sg, sg)
                       d == k * M + M \div 2 - (w * M) \div 2
                       e == (w * M) \div 2 + M
                       ge == GaussAt(Mul(e, e), s2) IN
                   Div(GaussAt(Mul(d, d), s2) - ge, M - ge)
RabiSample(amp, k, w, sg) == <<Mul(amp, Shape(k, w, sg)), 0>>
(* the derivative part: i beta (c - t) / sigma^2 times the Gaussian                        *)
DragSample(amp, beta, k, w, sg) ==
   LET g == Mul(amp, Shape(k, w, sg))
       d == k * M + M \div 2 - (w * M) \div 2 IN
   <<g, -Mul(beta, Mul(g, Div(d, Mul(sg, sg))))>>
(* the drive pulses of the i-th schedule on the qubit at position j: sequence of          *)
(* [t0, smp(k)] as parameters <<start, amplitude, beta>>                                   *)
Drives(p, i, j) == IF p.kind = "rabi" THEN << <<0, p.x[i], 0>> >>
                   ELSE << <<0, p.amps[j], p.x[i]>>, <<p.w, -p.amps[j], p.x[i]>> >>
DriveEnd(p) == IF p.kind = "rabi" THEN p.w ELSE 2 * p.w
Sample(p, d, k) == IF p.kind = "rabi" THEN RabiSample(d[2], k, p.w, p.sigma) ELSE DragSample(d[2], d[3], k, p.w, p.sigma)

(* ---- IQ data: a result is a sequence of [i, shots, v] with v[slot] a complex micro      *)
(* (the average over the shots)                                                            *)
AllOf(store, i) == FlattenSeq([r \in 1..Len(store) |-> SelectSeq(store[r], LAMBDA e : e.i = i)])
IQShots(store, i) == SumSeq(MapS(AllOf(store, i), LAMBDA e : e.shots))
Quo(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
IQMean(store, i, slot) == LET es == AllOf(store, i)  n == IQShots(store, i) IN
   <<Quo(SumSeq(MapS(es, LAMBDA e : e.shots * e.v[slot][1])), n), Quo(SumSeq(MapS(es, LAMBDA e : e.shots * e.v[slot][2])), n)>>
Covered(store, n) == \A i \in 1..n : AllOf(store, i) # <<>>
(* the signal keeps all distances along the line on which the data lie, and has mean zero   *)
CDist2(a, b) == CAbs2(CSub(a, b))
Farthest(z) == CHOOSE k \in 1..Len(z) : \A j \in 1..Len(z) : CDist2(z[j], z[1]) <= CDist2(z[k], z[1])
InnerRe(a, b) == Mul(a[1], b[1]) + Mul(a[2], b[2])
Collinear(z, tol) == LET k == Farthest(z)  u == CSub(z[k], z[1]) IN
   \A j \in 1..Len(z) : LET v == CSub(z[j], z[1]) IN Abs(Mul(u[1], v[2]) - Mul(u[2], v[1])) <= tol
SignalOf(y, z, tol) == LET k == Farthest(z) IN
   /\ Len(y) = Len(z) /\ \A j \in 1..Len(y) : y[j] # BAD
   /\ \A j \in 1..Len(y) : Near(Mul(y[j] - y[1], y[k] - y[1]), InnerRe(CSub(z[j], z[1]), CSub(z[k], z[1])), tol)
   /\ Abs(SumSeq(y)) <= 10 * Len(y)
(* variance of the single shots around their mean                                             *)
IQVar(store, i, slot) == LET es == AllOf(store, i)  m == IQMean(store, i, slot) IN
   SumSeq(MapS(es, LAMBDA e : CDist2(e.v[slot], m))) \div Len(es)

(* ---- one-qubit gates made of pi/2 pulses and frame changes: shifting the frame by f turns    *)
(* is a virtual rotation by -f turns about Z; ops in time order                                 *)
GateOf(ops) == FoldLeft(LAMBDA acc, o : TLCEval(MatMul(IF o.k = "fc" THEN PhaseT(-o.f) ELSE X90, acc)), UMat(uI), ops)
U3T(th, ph, la) == LET c == CosT(th \div 2)  s == SinT(th \div 2) IN
   << <<c, 0>>, <<-Mul(s, CosT(la)), -Mul(s, SinT(la))>>, <<Mul(s, CosT(ph)), Mul(s, SinT(ph))>>,
      <<Mul(c, CosT(ph + la)), Mul(c, SinT(ph + la))>> >>
U2T(ph, la) == U3T(M \div 4, ph, la)
NamedGate(name, a) == IF name = "u2" THEN U2T(a[1], a[2]) ELSE U3T(a[1], a[2], a[3])
FC(f) == [k |-> "fc", f |-> f]
PULSE == [k |-> "play"]
(* the documented words                                                                          *)
GateOps(name, a) == IF name = "u2" THEN <<FC(M \div 4 - a[2]), PULSE, FC(-a[1] - M \div 4)>>
                    ELSE <<FC(-a[3]), PULSE, FC(-a[1] - M \div 2), PULSE, FC(M \div 2 - a[2])>>
NPulses(name) == IF name = "u2" THEN 1 ELSE 2
Quadratic(x, a, x0, c) == Mul(a, Mul(x - x0, x - x0)) + c
=============================================================================
