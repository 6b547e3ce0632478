--------------------------------- MODULE Discr ---------------------------------
(* Level-1 discrimination (C18).  A result is a sequence of experiments                *)
(* [name, lvl, cal, own, shots]: measurement level, whether the name is a calibration   *)
(* name, the state the name announces, and the shots, each a sequence over the device   *)
(* qubits of <<I, Q>> (averaged data: one entry).  The discriminator's training set is  *)
(* a bag of <<features, label>>.                                                         *)
EXTENDS Common

Names(res) == [i \in 1..Len(res) |-> res[i].name]
CalNames(rs) == FlattenSeq([r \in 1..Len(rs) |-> Names(SelectSeq(rs[r], LAMBDA e : e.cal))])
Has(res, n) == \E i \in 1..Len(res) : res[i].name = n
Exp(res, n) == res[CHOOSE i \in 1..Len(res) : res[i].name = n]
Distinct(s) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
(* features: the I values of the masked qubits in mask order, then their Q values         *)
Feature(shot, mask) == [i \in 1..Len(mask) |-> shot[mask[i] + 1][1]] \o [i \in 1..Len(mask) |-> shot[mask[i] + 1][2]]
(* label of each name after the assignment scheds -> states                               *)
Assign(old, scheds, states) == FoldLeft(LAMBDA a, i : (scheds[i] :> states[i]) @@ a, old, [i \in 1..Len(scheds) |-> i])
Rows(rs, scheds, lab, mask) == FlattenSeq(FlattenSeq([k \in 1..Len(Distinct(scheds)) |->
     LET n == Distinct(scheds)[k] IN
     [r \in 1..Len(rs) |-> IF ~Has(rs[r], n) THEN <<>>
        ELSE [j \in 1..Len(Exp(rs[r], n).shots) |-> <<Feature(Exp(rs[r], n).shots[j], mask), lab[n]>>]]]))
Available(rs, scheds) == \A k \in 1..Len(scheds) : \E r \in 1..Len(rs) : Has(rs[r], scheds[k])
OwnState(rs, n) == LET r == CHOOSE r \in 1..Len(rs) : Has(rs[r], n) IN Exp(rs[r], n).own
Accepts(rs, scheds, states) == Available(rs, scheds) /\ Len(states) = Len(scheds)
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in {a[i] : i \in 1..Len(a)} :
                    Len(SelectSeq(a, LAMBDA y : y = x)) = Len(SelectSeq(b, LAMBDA y : y = x))
(* kinds of experiments that can be asked for: 0 calibrations, 1 the others, 2 all            *)
Chosen(res, typ) == SelectSeq(res, LAMBDA e : typ = 2 \/ (typ = 0 /\ e.cal) \/ (typ = 1 /\ ~e.cal))
AllFeatures(res, mask) == FlattenSeq([i \in 1..Len(res) |-> [j \in 1..Len(res[i].shots) |-> Feature(res[i].shots[j], mask)]])
(* ---- classification: the label of the nearest training row ------------------------------- *)
Dist(a, b) == SumSeq([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])])
Nearest(rows, x) == LET best == FoldLeft(LAMBDA m, r : MinI(m, Dist(r[1], x)), 2000000000, rows) IN
                    {rows[i][2] : i \in {j \in 1..Len(rows) : Dist(rows[j][1], x) = best}}
(* ---- filtering ----------------------------------------------------------------------------- *)
Level1(res) == SelectSeq(res, LAMBDA e : e.lvl = 1)
Base(labels) == 1 + FoldSet(LAMBDA d, m : MaxI(d, m), 0, UNION {{d[i] : i \in 1..Len(d)} : d \in labels})
Value(label, base) == FoldLeft(LAMBDA a, d : base * a + d, 0, label)
Tally(labels, base) == LET vs == [i \in 1..Len(labels) |-> Value(labels[i], base)] IN
     [v \in {vs[i] : i \in 1..Len(vs)} |-> Len(SelectSeq(vs, LAMBDA w : w = v))]
=============================================================================
