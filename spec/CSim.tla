--------------------------------- MODULE CSim ---------------------------------
(* Numeric state-vector semantics (fixed point, 10^-6) for circuits with gates   *)
(* outside Clifford+T.  Amplitudes are <<re, im>> micros; gate "V" carries its    *)
(* 2x2 matrix m as four complex micros, "U" the Ring8 encoding.                   *)
EXTENDS Ring8

C0 == <<0, 0>>
C1 == <<M, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<Mul(x[1], y[1]) - Mul(x[2], y[2]), Mul(x[1], y[2]) + Mul(x[2], y[1])>>
CConj(x) == <<x[1], -x[2]>>
CAbs2(x) == Mul(x[1], x[1]) + Mul(x[2], x[2])
CNear(x, y, tol) == Near(x[1], y[1], tol) /\ Near(x[2], y[2], tol)
R2 == 707107                                  \* 1/sqrt(2)
W8 == <<<<M, 0>>, <<R2, R2>>, <<0, M>>, <<-R2, R2>>, <<-M, 0>>, <<-R2, -R2>>, <<0, -M>>, <<R2, -R2>>>>
UEnt(h, p) == IF p < 0 THEN C0 ELSE IF h = 0 THEN W8[p + 1] ELSE CMul(W8[p + 1], <<R2, 0>>)
UMat(u) == [i \in 1..4 |-> UEnt(u[1], u[i + 1])]
CKet(n, val) == [n |-> n, v |-> [i \in 1..Pow2(n) |-> IF i = val + 1 THEN C1 ELSE C0]]
CApp1(s, m, q) ==
    LET k == Pow2(q) IN
    [s EXCEPT !.v = [i \in 1..Len(s.v) |->
        IF ((i - 1) \div k) % 2 = 0
        THEN CAdd(CMul(m[1], s.v[i]), CMul(m[2], s.v[i + k]))
        ELSE CAdd(CMul(m[3], s.v[i - k]), CMul(m[4], s.v[i]))]]
CAppCX(s, c, t) ==
    LET mc == Pow2(c)  mt == Pow2(t) IN
    [s EXCEPT !.v = [i \in 1..Len(s.v) |->
        IF ((i - 1) \div mc) % 2 = 0 THEN s.v[i]
        ELSE IF ((i - 1) \div mt) % 2 = 0 THEN s.v[i + mt] ELSE s.v[i - mt]]]
CAppCZ(s, c, t) ==
    LET mc == Pow2(c)  mt == Pow2(t) IN
    [s EXCEPT !.v = [i \in 1..Len(s.v) |->
        IF ((i - 1) \div mc) % 2 = 1 /\ ((i - 1) \div mt) % 2 = 1
        THEN CSub(C0, s.v[i]) ELSE s.v[i]]]
CKnown(gs) == \A i \in 1..Len(gs) : gs[i].g \in {"U", "V", "CX", "CZ", "SW", "M", "B"}
CAppG(s, g) == CASE g.g = "U" -> CApp1(s, UMat(g.u), g.q[1])
                 [] g.g = "V" -> CApp1(s, g.m, g.q[1])
                 [] g.g = "CX" -> CAppCX(s, g.q[1], g.q[2])
                 [] g.g = "CZ" -> CAppCZ(s, g.q[1], g.q[2])
                 [] g.g = "SW" -> AppSW(s, g.q[1], g.q[2])
                 [] OTHER -> s
CRun(s, gs) == FoldLeft(LAMBDA x, g : TLCEval(CAppG(x, g)), s, gs)
CProb(s, val) == CAbs2(s.v[val + 1])
(* one-qubit density matrix of a pure one-qubit state, as four complex micros      *)
Rho1(s) == <<CMul(s.v[1], CConj(s.v[1])), CMul(s.v[1], CConj(s.v[2])),
             CMul(s.v[2], CConj(s.v[1])), CMul(s.v[2], CConj(s.v[2]))>>
NearVec(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CNear(a[i], b[i], tol)
(* <phi|rho|phi> style overlap of one-qubit operators: Tr(a b)                      *)
Tr2(a, b) == CAdd(CAdd(CMul(a[1], b[1]), CMul(a[2], b[3])), CAdd(CMul(a[3], b[2]), CMul(a[4], b[4])))
=============================================================================
