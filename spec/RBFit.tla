--------------------------------- MODULE RBFit ---------------------------------
(* Benchmarking fitters: a store of counts per (variant, seed, length index) that   *)
(* accumulates over every result added, its statistics, and the documented          *)
(* functions of the fitted decay.                                                    *)
EXTENDS Common

(* a circuit record is [v, seed, li, counts]; the store is a sequence of them         *)
SeedsOf(store) == FoldLeft(LAMBDA a, r : IF \E i \in 1..Len(a) : a[i] = r.seed THEN a ELSE Append(a, r.seed),
                           <<>>, store)
Recs(store, v, s, li) == SelectSeq(store, LAMBDA r : r.v = v /\ r.seed = s /\ r.li = li)
Start(pats, p) == SumSeq([i \in 1..(p - 1) |-> Len(pats[i])])
ZeroOn(b, lo, k) == \A i \in (lo + 1)..(lo + k) : b[i] = 0
Zeros(rs, lo, k) == SumSeq([i \in 1..Len(rs) |-> CountWhere(rs[i].counts, LAMBDA b : ZeroOn(b, lo, k))])
Shots(rs) == SumSeq([i \in 1..Len(rs) |-> Total(rs[i].counts)])
(* fraction of shots in which the group's own bits were all zero                       *)
RawP(store, v, pats, p, s, li) == LET rs == Recs(store, v, s, li) IN
      Micro(Zeros(rs, Start(pats, p), Len(pats[p])), Shots(rs))
RawTab(store, v, pats, p, nl) == LET ss == SeedsOf(store) IN
      [i \in 1..Len(ss) |-> [k \in 1..nl |-> RawP(store, v, pats, p, ss[i], k - 1)]]
MeanOf(tab, k) == SumSeq([i \in 1..Len(tab) |-> tab[i][k]]) \div Len(tab)
VarOf(tab, k) == LET m == MeanOf(tab, k) IN
      SumSeq([i \in 1..Len(tab) |-> Mul(tab[i][k] - m, tab[i][k] - m)]) \div Len(tab)
NearTab(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
MeanOK(mean, tab) == \A k \in 1..Len(mean) : Near(mean[k], MeanOf(tab, k), 3)
StdOK(std, tab) == \A k \in 1..Len(std) : IsSqrt(std[k], VarOf(tab, k), 30)

(* ---- purity: averaged Pauli correlators -------------------------------------------- *)
(* labels are sequences over X Y Z, one letter per qubit of the group; correlator of     *)
(* mask m under label lab estimates the Pauli with lab's letter where m is 1, I elsewhere *)
PauliOf(lab, m) == [i \in 1..Len(lab) |-> IF m[i] = 1 THEN lab[i] ELSE "I"]
ParityOn(b, lo, m) == SumSeq([i \in 1..Len(m) |-> m[i] * b[lo + i]]) % 2
Corr(rs, lo, m) == LET odd == SumSeq([i \in 1..Len(rs) |->
                        CountWhere(rs[i].counts, LAMBDA b : ParityOn(b, lo, m) = 1)])
                       tot == Shots(rs)
                   IN  Micro(tot - 2 * odd, tot)
Labels(k) == [1..k -> {"X", "Y", "Z"}]
Paulis(k) == [1..k -> {"I", "X", "Y", "Z"}]
MaskOf(pl) == [i \in 1..Len(pl) |-> IF pl[i] = "I" THEN 0 ELSE 1]
Measures(lab, pl) == \A i \in 1..Len(pl) : pl[i] = "I" \/ pl[i] = lab[i]
PauliAvg(store, pats, p, s, li, pl) ==
    LET labs == {b \in Labels(Len(pl)) : Measures(b, pl)} IN
    SumOver(labs, LAMBDA b : Corr(Recs(store, b, s, li), Start(pats, p), MaskOf(pl))) \div Cardinality(labs)
PurityP(store, pats, p, s, li) == LET k == Len(pats[p]) IN
    SumOver(Paulis(k), LAMBDA pl : LET c == PauliAvg(store, pats, p, s, li, pl) IN Mul(c, c)) \div Pow2(k)
PurTab(store, pats, p, nl) == LET ss == SeedsOf(store) IN
      [i \in 1..Len(ss) |-> [k \in 1..nl |-> PurityP(store, pats, p, ss[i], k - 1)]]

(* ---- decay model and functions of the decay ------------------------------------------ *)
RECURSIVE PowM(_, _)
PowM(x, k) == IF k = 0 THEN M ELSE IF k % 2 = 0 THEN PowM(Mul(x, x), k \div 2) ELSE Mul(x, PowM(x, k - 1))
Decay(a, alpha, b, x) == Mul(a, PowM(alpha, x)) + b
(* (d-1)/d * y                                                                           *)
Frac(d, y) == (y \div d) * (d - 1) + ((y % d) * (d - 1)) \div d
Epc(k, alpha) == Frac(Pow2(k), M - alpha)
Interleaved(k, alpha, alphac) == Frac(Pow2(k), M - Div(alphac, alpha))
SysErr1(k, alpha, alphac) == Frac(Pow2(k), Abs(alpha - Div(alphac, alpha)) + (M - alpha))
(* second bound, given r = sqrt(1-alpha) and q = sqrt(d^2-1) as micros                   *)
Sqrt15(k) == CASE k = 1 -> 1732051 [] k = 2 -> 3872983 [] k = 3 -> 7937254 [] OTHER -> 15968719
SqrtM(x) == ISqrt(x * 1000) * 1000  \* coarse, only used through bounds
SysErr2Lo(k, alpha, r) == LET d2 == Pow2(2 * k) IN
    Div(2 * Frac(d2, M - alpha), alpha) + Div(4 * Mul(r, Sqrt15(k)), alpha)
(* ---- the fit itself: weighted least squares inside the unit box --------------------- *)
(* sum of squared normalised residuals; sig are the spreads used (micro, all > 0)        *)
(* (a point further than 15 spreads away somewhere is no candidate)                       *)
Chi(mean, lens, sig, q) ==
    LET z == TLCEval([k \in 1..Len(mean) |-> Div(mean[k] - Decay(q[1], q[2], q[3], lens[k]), sig[k])]) IN
    IF \E k \in 1..Len(z) : Abs(z[k]) > 15 * M THEN 2000 * M
    ELSE SumSeq([k \in 1..Len(z) |-> Mul(z[k], z[k])])
(* equal weights unless every length has a spread over the seeds                         *)
Weights(std, nl) == IF Len(std) = 0 \/ \E k \in 1..Len(std) : std[k] <= 1
                    THEN [k \in 1..nl |-> 10000] ELSE std
InBox(q) == \A i \in 1..3 : q[i] >= 0 /\ q[i] <= M
Around(q, h) == {r \in {[i \in 1..3 |-> q[i] + d[i] * h[i]] : d \in [1..3 -> {-1, 0, 1}]} : InBox(r)}
Optimal(mean, lens, sig, q) == LET best == TLCEval(Chi(mean, lens, sig, q)) IN
    \A h \in {<<20000, 10000, 20000>>, <<5000, 3000, 5000>>, <<20000, 3000, 20000>>, <<5000, 1000, 5000>>} :
       \A r \in Around(q, h) : best - best \div 100 - 3000 <= Chi(mean, lens, sig, r)
(* ---- error bars, in units of 10^-8; judged only where those units resolve them ---------- *)
Fine(e) == e # BAD /\ e >= 2000 /\ e <= 30000000
ErrOfEpc(k, alpha, aerr) == Frac(Pow2(k), Div(aerr, alpha))
NearRel(x, y) == Near(x, y, 20 + Abs(y) \div 200)
(* e is the root of the sum of squares of u and v                                           *)
Quadrature(e, u, v) == LET a == Div(u, e)  b == Div(v, e) IN Near(Mul(a, a) + Mul(b, b), M, 10000)
InterErr(e, k, al, ale, ac, ace) == LET r == Div(ac, al) IN
    Quadrature(e, Frac(Pow2(k), Mul(r, Div(ale, al))), Frac(Pow2(k), Mul(r, Div(ace, ac))))
DihErr(e, k, az, aze, ar, are) == LET d == Pow2(k) IN
    Quadrature(e, Div(aze, az) \div (d + 1), (Div(are, ar) \div (d + 1)) * d)
DihAlpha(k, az, ar) == (az + Pow2(k) * ar) \div (Pow2(k) + 1)
=============================================================================
