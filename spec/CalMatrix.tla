------------------------------ MODULE CalMatrix ------------------------------
(* Readout-calibration fitter: an object that accumulates calibration results. *)
(*   tally  - per group, a table of <<measured label, prepared label>> counts  *)
(*   built  - the tally at the last rebuild (what the matrices show), or Unset  *)
(* An experiment is <<prepared bits, outcome table>>; a result is a sequence   *)
(* of experiments; sizes gives the number of qubits of each group.             *)
EXTENDS Common

Unset == <<>>
Offset(sizes, g) == SumSeq(SubSeq(sizes, 1, g - 1))
Part(sizes, g, b) == SubSeq(b, Offset(sizes, g) + 1, Offset(sizes, g) + sizes[g])
AllLabels(n) == [v \in 1..Pow2(n) |-> BitsOf(v - 1, n)]
EmptyTally(sizes) == [g \in 1..Len(sizes) |->
     [rc \in (0..(Pow2(sizes[g]) - 1)) \X (0..(Pow2(sizes[g]) - 1)) |-> 0]]
AddOutcome(sizes, t, prep, out) ==
    [g \in 1..Len(sizes) |->
       LET rc == <<ValOf(Part(sizes, g, out[1])), ValOf(Part(sizes, g, prep))>>
       IN  [t[g] EXCEPT ![rc] = @ + out[2]]]
AddExp(sizes, t, e) == FoldLeft(LAMBDA a, o : AddOutcome(sizes, a, e[1], o), t, e[2])
AddResult(sizes, t, r) == FoldLeft(LAMBDA a, e : AddExp(sizes, a, e), t, r)
AddResults(sizes, t, rs) == FoldLeft(LAMBDA a, r : AddResult(sizes, a, r), t, rs)

ColSum(t, n, c) == SumSeq([r \in 1..Pow2(n) |-> t[<<r - 1, c>>]])
(* matrix entry (micro) for row / column labels given as bit sequences          *)
Entry(t, n, r, c) == LET s == ColSum(t, n, ValOf(c)) IN
                     IF s = 0 THEN 0 ELSE Micro(t[<<ValOf(r), ValOf(c)>>], s)
Matrix(t, labels) == LET n == Len(labels[1]) IN
    [i \in 1..Len(labels) |-> [j \in 1..Len(labels) |-> Entry(t, n, labels[i], labels[j])]]
NearMat(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
(* readout fidelity: mean over label groups of (block sum / group size)          *)
BlockFid(t, n, grp) == SumSeq([i \in 1..Len(grp) |-> SumSeq([j \in 1..Len(grp) |->
                          Entry(t, n, grp[i], grp[j])])]) \div Len(grp)
Fidelity(t, n, grps) == SumSeq([k \in 1..Len(grps) |-> BlockFid(t, n, grps[k])])
                          \div Len(grps)
(* calibration of a sub-list of qubit positions: average over the preparations   *)
(* of the others of the probability to read the sub-list as r                    *)
Sub(pos, b) == [k \in 1..Len(pos) |-> b[pos[k]]]
SubEntry(t, n, pos, r, c) ==
    LET full == AllLabels(n)
        cols == SelectSeq(full, LAMBDA b : Sub(pos, b) = c)
        rows == SelectSeq(full, LAMBDA b : Sub(pos, b) = r)
    IN  SumSeq([j \in 1..Len(cols) |-> SumSeq([i \in 1..Len(rows) |->
                  Entry(t, n, rows[i], cols[j])])]) \div Len(cols)
SubMatrix(t, n, pos) == LET ls == AllLabels(Len(pos)) IN
    [i \in 1..Len(ls) |-> [j \in 1..Len(ls) |-> SubEntry(t, n, pos, ls[i], ls[j])]]
=============================================================================
