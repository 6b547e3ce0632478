-------------------------------- MODULE Ring8 --------------------------------
(* Exact quantum state-vector semantics over Z[w]/sqrt(2)^k, w = e^{i pi/4}.   *)
(* A state is [n |-> qubits, k |-> exponent, v |-> amplitudes], amplitude i    *)
(* (1-based; basis value i-1, qubit j = bit j) is <<a,b,c,d>> = a+bw+cw^2+dw^3 *)
(* Gates are the records logged by the drivers (global phase dropped).         *)
EXTENDS Common

ZeroA == <<0, 0, 0, 0>>
OneA == <<1, 0, 0, 0>>
AddA(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
SubA(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4]>>
(* multiplication by w^p                                                       *)
RotA(x, p) == CASE p = 0 -> x
                [] p = 1 -> <<-x[4], x[1], x[2], x[3]>>
                [] p = 2 -> <<-x[3], -x[4], x[1], x[2]>>
                [] p = 3 -> <<-x[2], -x[3], -x[4], x[1]>>
                [] p = 4 -> <<-x[1], -x[2], -x[3], -x[4]>>
                [] p = 5 -> <<x[4], -x[1], -x[2], -x[3]>>
                [] p = 6 -> <<x[3], x[4], -x[1], -x[2]>>
                [] p = 7 -> <<x[2], x[3], x[4], -x[1]>>
TermA(p, x) == IF p < 0 THEN ZeroA ELSE RotA(x, p)
Root2A(x) == <<x[2] - x[4], x[1] + x[3], x[2] + x[4], x[3] - x[1]>>  \* sqrt2 * x
EvenA(x) == x[1] % 2 = 0 /\ x[2] % 2 = 0 /\ x[3] % 2 = 0 /\ x[4] % 2 = 0
HalfA(x) == <<x[1] \div 2, x[2] \div 2, x[3] \div 2, x[4] \div 2>>
MulA(x, y) == LET t(i) == IF y[i + 1] = 0 THEN ZeroA
                          ELSE LET r == RotA(x, i) IN
                               <<r[1] * y[i + 1], r[2] * y[i + 1],
                                 r[3] * y[i + 1], r[4] * y[i + 1]>>
              IN  AddA(AddA(t(0), t(1)), AddA(t(2), t(3)))
ConjA(x) == <<x[1], -x[4], -x[3], -x[2]>>
(* |x|^2 = p + q sqrt2                                                         *)
NormA(x) == <<x[1]*x[1] + x[2]*x[2] + x[3]*x[3] + x[4]*x[4],
              x[1]*x[2] + x[2]*x[3] + x[3]*x[4] - x[4]*x[1]>>

RECURSIVE Reduce(_)
Reduce(s) == IF s.k < 1 THEN s
             ELSE IF s.k >= 2 /\ \A i \in 1..Len(s.v) : EvenA(s.v[i])
             THEN Reduce([s EXCEPT !.k = s.k - 2,
                                   !.v = [i \in 1..Len(s.v) |-> HalfA(s.v[i])]])
             ELSE LET r == [i \in 1..Len(s.v) |-> Root2A(s.v[i])] IN
                  IF \A i \in 1..Len(r) : EvenA(r[i])
                  THEN [s EXCEPT !.k = s.k - 1,
                                 !.v = [i \in 1..Len(r) |-> HalfA(r[i])]]
                  ELSE s

Ket(n, val) == [n |-> n, k |-> 0,
                v |-> [i \in 1..Pow2(n) |-> IF i = val + 1 THEN OneA ELSE ZeroA]]

App1(s, u, q) ==
    LET m == Pow2(q)
        w == [i \in 1..Len(s.v) |->
               IF ((i - 1) \div m) % 2 = 0
               THEN AddA(TermA(u[2], s.v[i]), TermA(u[3], s.v[i + m]))
               ELSE AddA(TermA(u[4], s.v[i - m]), TermA(u[5], s.v[i]))]
    IN  IF u[1] = 0 THEN [s EXCEPT !.v = w]
        ELSE Reduce([s EXCEPT !.v = w, !.k = s.k + 1])
AppCX(s, c, t) ==
    LET mc == Pow2(c)  mt == Pow2(t) IN
    [s EXCEPT !.v = [i \in 1..Len(s.v) |->
        IF ((i - 1) \div mc) % 2 = 0 THEN s.v[i]
        ELSE IF ((i - 1) \div mt) % 2 = 0 THEN s.v[i + mt] ELSE s.v[i - mt]]]
AppCZ(s, c, t) ==
    LET mc == Pow2(c)  mt == Pow2(t) IN
    [s EXCEPT !.v = [i \in 1..Len(s.v) |->
        IF ((i - 1) \div mc) % 2 = 1 /\ ((i - 1) \div mt) % 2 = 1
        THEN RotA(s.v[i], 4) ELSE s.v[i]]]
AppSW(s, a, b) ==
    LET ma == Pow2(a)  mb == Pow2(b) IN
    [s EXCEPT !.v = [i \in 1..Len(s.v) |->
        LET x == ((i - 1) \div ma) % 2  y == ((i - 1) \div mb) % 2 IN
        IF x = y THEN s.v[i] ELSE IF x = 0 THEN s.v[i + ma - mb] ELSE s.v[i - ma + mb]]]

KnownGate(g) == g.g \in {"U", "CX", "CZ", "SW", "M", "B"}
AppG(s, g) == CASE g.g = "U"  -> App1(s, g.u, g.q[1])
                [] g.g = "CX" -> AppCX(s, g.q[1], g.q[2])
                [] g.g = "CZ" -> AppCZ(s, g.q[1], g.q[2])
                [] g.g = "SW" -> AppSW(s, g.q[1], g.q[2])
                [] OTHER -> s
Run(s, gs) == FoldLeft(LAMBDA x, g : TLCEval(AppG(x, g)), s, gs)
AllKnown(gs) == \A i \in 1..Len(gs) : KnownGate(gs[i])

(* ---- named Clifford+T gates in the drivers' encoding ------------------------ *)
uI == <<0, 0, -1, -1, 0>>     uX == <<0, -1, 0, 0, -1>>   uZ == <<0, 0, -1, -1, 4>>
uY == <<0, -1, 0, 4, -1>>     uS == <<0, 0, -1, -1, 2>>   uSdg == <<0, 0, -1, -1, 6>>
uT == <<0, 0, -1, -1, 1>>     uTdg == <<0, 0, -1, -1, 7>> uH == <<1, 0, 0, 0, 4>>
U1(u, q) == [g |-> "U", q |-> <<q>>, u |-> u]
CXg(c, t) == [g |-> "CX", q |-> <<c, t>>]

(* ---- states up to global phase ---------------------------------------------- *)
Inner(s, t) == FoldLeft(AddA, ZeroA,
                 [i \in 1..Len(s.v) |-> MulA(ConjA(s.v[i]), t.v[i])])
(* probability (micro) of basis value val                                        *)
ProbVal(s, val) == LET p == NormA(s.v[val + 1]) IN
                   (p[1] * M) \div Pow2(s.k) + (p[2] * 1414214) \div Pow2(s.k)
IsKet(s, val) == /\ s.v[val + 1] # ZeroA
                 /\ \A i \in 1..Len(s.v) : i # val + 1 => s.v[i] = ZeroA
(* s and t are the same ray: s.v[i]*t.v[j] = s.v[j]*t.v[i] for a pivot j          *)
SameRay(s, t) == LET j == CHOOSE i \in 1..Len(s.v) : s.v[i] # ZeroA IN
                 \A i \in 1..Len(s.v) :
                     MulA(s.v[i], t.v[j]) = MulA(s.v[j], t.v[i])
(* same unitary up to ONE global phase: apply to the superposition with a         *)
(* reference is not needed: compare images of all basis kets and their phases     *)
Columns(n, gs) == [x \in 1..Pow2(n) |-> Run(Ket(n, x - 1), gs)]
ScaleTo(s, k) == IF s.k = k THEN s.v
                 ELSE LET RECURSIVE up(_, _)
                          up(v, d) == IF d = 0 THEN v ELSE
                                 up([i \in 1..Len(v) |-> Root2A(v[i])], d - 1)
                      IN up(s.v, k - s.k)
Matrix(n, gs) == LET cs == Columns(n, gs)
                     kk == Max({cs[i].k : i \in 1..Len(cs)})
                 IN  [n |-> n, k |-> kk,
                      v |-> FlattenSeq([i \in 1..Len(cs) |-> ScaleTo(cs[i], kk)])]
SameUnitary(n, g1, g2) == SameRay(Matrix(n, g1), Matrix(n, g2))

(* ---- measurement outcomes ------------------------------------------------------ *)
Measures(gs) == SelectSeq(gs, LAMBDA g : g.g = "M")
(* clbit written by qubit value, for terminal measurements                          *)
ClVal(gs, val) == LET ms == Measures(gs) IN
      SumSeq([i \in 1..Len(ms) |-> Pow2(ms[i].c[1]) * Bit(val, ms[i].q[1])])
(* no gate acts on a qubit after it was measured                                     *)
TerminalMeas(gs) == \A i \in 1..Len(gs) : gs[i].g = "M" =>
     \A j \in (i + 1)..Len(gs) :
        gs[j].g \in {"B"} \/ \A a \in 1..Len(gs[j].q) : gs[j].q[a] # gs[i].q[1]
=============================================================================
