----------------------------- MODULE ReadoutCal -----------------------------
(* Readout-calibration circuits.  A pattern is a sequence of groups of qubits. *)
(* The design: which basis state each calibration circuit prepares in each     *)
(* group, where each qubit is measured, and how circuits are labelled.         *)
EXTENDS Ring8

Flat(pat) == FlattenSeq(pat)
NQ(pat) == Len(Flat(pat))
Largest(pat) == Max({Len(pat[i]) : i \in 1..Len(pat)})
NumCircuits(pat) == Pow2(Largest(pat))
Distinct(pat) == Cardinality({Flat(pat)[i] : i \in 1..NQ(pat)}) = NQ(pat)
(* state value prepared in group g by circuit number i (0-based): the leading  *)
(* Len(group) characters of the Largest-character binary label of i            *)
GroupVal(pat, g, i) == i \div Pow2(Largest(pat) - Len(pat[g]))
(* the whole label, bit 0 first: groups laid out in order from the right       *)
LabelBits(pat, i) == FlattenSeq([g \in 1..Len(pat) |->
                                   BitsOf(GroupVal(pat, g, i), Len(pat[g]))])
(* the ideal basis state of the device register                                *)
Prepared(pat, i) == LET f == Flat(pat)  b == LabelBits(pat, i) IN
                    SumSeq([k \in 1..Len(f) |-> Pow2(f[k]) * b[k]])

(* ---- what a circuit must do, judged on its gate list ----------------------- *)
Used(gs) == UNION {{gs[i].q[j] : j \in 1..Len(gs[i].q)} : i \in
                     {x \in 1..Len(gs) : gs[x].g # "B"}}
Compact(gs, order) ==      \* rename device qubits to positions (0-based)
    LET pos(q) == (CHOOSE k \in 1..Len(order) : order[k] = q) - 1 IN
    [i \in 1..Len(gs) |-> [gs[i] EXCEPT !.q = [j \in 1..Len(gs[i].q) |-> pos(gs[i].q[j])]]]
PreparesAndReads(pat, i, gs) ==
    LET f == Flat(pat)
        body == SelectSeq(gs, LAMBDA g : g.g # "B")
    IN  /\ AllKnown(body)
        /\ Used(body) \subseteq {f[k] : k \in 1..Len(f)}
        /\ LET c == Compact(body, f) IN
           /\ TerminalMeas(c)
           /\ IsKet(Run(Ket(Len(f), 0), c), ValOf(LabelBits(pat, i)))
           /\ Len(Measures(c)) = Len(f)
           /\ \A k \in 1..Len(f) : \E m \in 1..Len(Measures(c)) :
                 Measures(c)[m].q[1] = k - 1 /\ Measures(c)[m].c[1] = k - 1
=============================================================================
