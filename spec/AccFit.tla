--------------------------------- MODULE AccFit ---------------------------------
(* The accreditation verdict (C15).  A fitter is the record of its runs; a run is   *)
(* [v, circ] where circ[i] = [raw |-> outcome table, postp |-> bits].                *)
EXTENDS Reals

Flip(b, p) == [k \in 1..Len(b) |-> (b[k] + p[k]) % 2]
NTraps(run) == Len(run.circ) - 1
SingleShot(run) == \A i \in 1..Len(run.circ) : Total(run.circ[i].raw) = 1
OutOf(run, i) == LET t == SelectSeq(run.circ[i].raw, LAMBDA e : e[2] = 1)[1] IN Flip(t[1], run.circ[i].postp)
(* an admissible next run of a fitter that has recorded the runs rs                  *)
Admissible(rs, run) == /\ NTraps(run) >= 3 /\ SingleShot(run)
                       /\ rs = <<>> \/ NTraps(run) = NTraps(rs[1])
                       /\ run.v >= 0 /\ run.v <= NTraps(run)
Accepted(run) == \A i \in 1..Len(run.circ) : i = run.v + 1 \/ \A k \in 1..Len(OutOf(run, i)) : OutOf(run, i)[k] = 0
AccRuns(rs) == SelectSeq(rs, Accepted)
NAcc(rs) == Len(AccRuns(rs))
Outputs(rs) == [i \in 1..NAcc(rs) |-> LET r == AccRuns(rs)[i] IN OutOf(r, r.v + 1)]
Acc(rs) == Micro(NAcc(rs), Len(rs))
(* variation-distance bound and its confidence for threshold theta and weight g       *)
Bound(rs, theta, g) ==
    IF Acc(rs) <= theta THEN M
    ELSE MinI(M, Mul(g, Div(1700000 \div (NTraps(rs[1]) + 1), Acc(rs) - theta)) + M - g)
Conf(rs, theta) == IF Acc(rs) <= theta THEN M
                   ELSE M - 2 * (LET k == 2 * Len(rs) * Len(rs) IN
                                 IF theta > (20 * M) \div k THEN 0 ELSE ExpNeg(k * theta))
=============================================================================
