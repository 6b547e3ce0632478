-------------------------------- MODULE CharCirc --------------------------------
(* Characterization circuits (C16): the documented sequence of every listed qubit as  *)
(* a word of tokens: "I" (one delay gate), "V" (a rotation, matrix m), "CX".           *)
(* Instructions of a recorded circuit have g in I, V, CX, M, B, q, and m for V.        *)
EXTENDS CSim

(* ---- trigonometry: cosine and sine of 2 pi f, f in micros of a turn ----------------- *)
TwoPi == 6283185
RECURSIVE Tay(_, _, _, _)
Tay(x2, k, term, acc) == IF k > 14 \/ term = 0 THEN acc
                         ELSE LET t == -(Mul(term, x2) \div ((k + 1) * (k + 2))) IN Tay(x2, k + 2, t, acc + t)
Red(f) == LET r == f % M IN IF r > M \div 2 THEN r - M ELSE r     \* in (-1/2, 1/2]
(* quarter-turn reduction keeps the series short                                         *)
CosT(f) == LET r == Abs(Red(f)) IN
           IF r > M \div 4 THEN -(LET x == Mul(TwoPi, M \div 2 - r) IN Tay(Mul(x, x), 0, M, M))
           ELSE LET x == Mul(TwoPi, r) IN Tay(Mul(x, x), 0, M, M)
SinT(f) == CosT(f - M \div 4)

vX == UMat(uX)   vY == UMat(uY)   vH == UMat(uH)
Y90 == <<<<R2, 0>>, <<-R2, 0>>, <<R2, 0>>, <<R2, 0>>>>
X90 == <<<<R2, 0>>, <<0, -R2>>, <<0, -R2>>, <<R2, 0>>>>
PhaseT(f) == <<C1, C0, C0, <<CosT(f), SinT(f)>>>>          \* diag(1, e^{2 pi i f})
MatMul(a, b) == <<CAdd(CMul(a[1], b[1]), CMul(a[2], b[3])), CAdd(CMul(a[1], b[2]), CMul(a[2], b[4])),
                  CAdd(CMul(a[3], b[1]), CMul(a[4], b[3])), CAdd(CMul(a[3], b[2]), CMul(a[4], b[4]))>>
SameU(a, b, tol) == LET k == CHOOSE i \in 1..4 : CAbs2(b[i]) > 240000 IN
                    \A i \in 1..4 : CNear(CMul(a[i], b[k]), CMul(a[k], b[i]), tol)
IsDiag(m) == CAbs2(m[2]) < 5 /\ CAbs2(m[3]) < 5
V(m) == [t |-> "V", m |-> m]
D(n) == [i \in 1..n |-> [t |-> "I"]]
CXT == [t |-> "CX"]

(* ---- the documented words; p is the parameter record ---------------------------------- *)
T1Word(n) == <<V(vX)>> \o D(n)
RamseyWord(n, f) == <<V(vH)>> \o D(n) \o <<V(MatMul(vH, PhaseT(f)))>>
T2Word(n, echos, alt) ==
   <<V(Y90)>> \o D(n) \o <<V(vY)>>
   \o FlattenSeq([e \in 1..(echos - 1) |-> D(2 * n) \o <<V(IF alt /\ e % 2 = 1 THEN vX ELSE vY)>>])
   \o D(n) \o <<V(Y90)>>
Rep(n, w) == FlattenSeq([i \in 1..n |-> w])
WordOf(p, i) ==            \* word of a listed qubit in the i-th (1-based) circuit of the sweep
   CASE p.kind = "t1" -> T1Word(p.ns[i])
     [] p.kind = "t2" -> T2Word(p.ns[i], p.echos, p.alt)
     [] p.kind \in {"t2star", "zz"} -> RamseyWord(p.ns[i], Micro(p.nosc * p.ns[i], p.ns[Len(p.ns)]))
     [] p.kind = "ampcal1Q" -> <<V(Y90)>> \o Rep(2 * (i - 1), <<V(Y90)>>)
     [] p.kind = "anglecal1Q" -> <<V(Y90)>> \o Rep(i - 1, <<V(X90), V(X90), V(Y90), V(Y90)>>) \o <<V(X90)>>
     [] p.kind = "ampcalcx" -> <<V(X90)>> \o Rep(i - 1, <<CXT>>)
     [] p.kind = "anglecalcx" -> <<V(Y90)>> \o Rep(i - 1, <<CXT, V(vY)>>) \o <<V(X90)>>
Coherence(p) == p.kind \in {"t1", "t2", "t2star", "zz"}
NPoints(p) == IF Coherence(p) THEN Len(p.ns) ELSE p.reps
Series(p) == IF p.kind = "zz" THEN <<0, 1>> ELSE <<0>>
(* abscissa of point i, in units of the gate time for coherence, gates otherwise          *)
Absc(p, i) == CASE p.kind = "t2" -> 2 * p.echos * p.ns[i]
                [] Coherence(p) -> p.ns[i]
                [] p.kind \in {"ampcal1Q", "anglecal1Q"} -> 2 * (i - 1)
                [] OTHER -> i - 1
Helpers(p) == IF p.kind = "zz" \/ p.kind \in {"ampcalcx", "anglecalcx"} THEN p.others ELSE <<>>

(* ---- reading a recorded circuit ---------------------------------------------------------- *)
OnQ(gs, q) == SelectSeq(gs, LAMBDA g : g.g \in {"I", "V", "CX"} /\ \E a \in 1..Len(g.q) : g.q[a] = q)
Tok(g) == CASE g.g = "I" -> [t |-> "I"] [] g.g = "V" -> [t |-> "V", m |-> g.m] [] OTHER -> [t |-> "CX"]
(* adjacent rotations are one rotation; identity rotations vanish                            *)
Merge(w) == FoldLeft(LAMBDA acc, x : TLCEval(
      IF x.t = "V" /\ acc # <<>> /\ acc[Len(acc)].t = "V"
      THEN [acc EXCEPT ![Len(acc)] = V(MatMul(x.m, acc[Len(acc)].m))] ELSE Append(acc, x)), <<>>, w)
SameWord(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
      a[i].t = b[i].t /\ (a[i].t = "V" => SameU(a[i].m, b[i].m, 100))
(* an artificial angle error e (in turns) shows as an oscillation error of 2 e per abscissa   *)
(* unit: population of the target after the word, its control being set                       *)
PopOf(w) == LET u == FoldLeft(LAMBDA acc, x : TLCEval(MatMul(IF x.t = "CX" THEN vX ELSE x.m, acc)), UMat(uI), w) IN
            CAbs2(u[3])
PopWant(kind, x, e, k) == LET th0 == IF kind = "anglecal1Q" THEN 250000 ELSE 500000 IN
            M \div 2 - CosT(((th0 + 2 * e) * x) + 250000 + (k * e)) \div 2
CountT(w, t) == Len(SelectSeq(w, LAMBDA x : x.t = t))
NoDiag(w) == SelectSeq(w, LAMBDA x : x.t # "V" \/ ~IsDiag(x.m))
=============================================================================
