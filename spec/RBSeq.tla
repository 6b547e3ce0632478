--------------------------------- MODULE RBSeq ---------------------------------
(* Randomized-benchmarking sequences: groups of qubits benchmarked side by side, *)
(* random elements separated by barriers, an inverting tail, measurements.       *)
EXTENDS Ring8

SetOfSeq(s) == {s[i] : i \in 1..Len(s)}
Flat(pats) == FlattenSeq(pats)
IsGate(g) == g.g \notin {"M", "B"}
Body(gs) == SelectSeq(gs, IsGate)
On(g, grp) == SetOfSeq(g.q) \cap SetOfSeq(grp) # {}
Within(g, grp) == SetOfSeq(g.q) \subseteq SetOfSeq(grp)
PosIn(grp, q) == CHOOSE i \in 1..Len(grp) : grp[i] = q
Relabel(g, grp) == [g EXCEPT !.q = [i \in 1..Len(g.q) |-> PosIn(grp, g.q[i]) - 1]]
(* the gates of one group, on local qubit numbers                                 *)
Local(gs, grp) == LET own == SelectSeq(gs, LAMBDA g : IsGate(g) /\ Within(g, grp))
                  IN  [i \in 1..Len(own) |-> Relabel(own[i], grp)]
(* every gate stays inside one group                                              *)
Separate(gs, pats) == \A i \in 1..Len(gs) : IsGate(gs[i]) =>
                         \E p \in 1..Len(pats) : Within(gs[i], pats[p])
(* measurement: i-th benchmarked qubit into classical bit i, nothing afterwards    *)
MeasOK(gs, pats) == LET fl == Flat(pats)  ms == Measures(gs) IN
    /\ Len(ms) = Len(fl) /\ TerminalMeas(gs)
    /\ {<<ms[i].q[1], ms[i].c[1]>> : i \in 1..Len(ms)} = {<<fl[i], i - 1>> : i \in 1..Len(fl)}
ReturnsGround(gs, grp) == IsKet(Run(Ket(Len(grp), 0), Local(gs, grp)), 0)
AllGround(gs, pats) == \A p \in 1..Len(pats) : ReturnsGround(gs, pats[p])

(* ---- elements: the stretches of a group between its own barriers ----------------- *)
Split(gs, grp) ==
    LET own == SelectSeq(gs, LAMBDA g : (IsGate(g) /\ Within(g, grp))
                                        \/ (g.g = "B" /\ SetOfSeq(g.q) = SetOfSeq(grp)))
        step(a, g) == IF g.g = "B" THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                      ELSE [a EXCEPT !.cur = Append(a.cur, Relabel(g, grp))]
        r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], own)
    IN  r.done
(* alignment adds one barrier over everything per round; with a single group it      *)
(* looks like the group's own                                                        *)
Elements(gs, pats, p, per, align) ==
    LET s == Split(gs, pats[p]) IN
    IF align /\ Len(pats) = 1
    THEN [i \in 1..((Len(s) * per) \div (per + 1)) |-> s[i + ((i - 1) \div per)]]
    ELSE s
SameElem(k, a, b) == a = b \/ SameUnitary(k, a, b)

(* reference sequence of the given length                                            *)
SeqOK(gs, pats) == AllKnown(gs) /\ Separate(gs, pats) /\ AllGround(gs, pats)
CountOK(gs, pats, len, mult, align, factor) ==
    \A p \in 1..Len(pats) :
       Len(Elements(gs, pats, p, mult[p] * factor, align)) = len * mult[p] * factor
PrefixOK(short, long, pats, mult, align, factor) ==
    \A p \in 1..Len(pats) :
       LET a == Elements(short, pats, p, mult[p] * factor, align)
           b == Elements(long, pats, p, mult[p] * factor, align)
       IN  Len(a) <= Len(b) /\ \A i \in 1..Len(a) : SameElem(Len(pats[p]), a[i], b[i])
(* interleaved: reference element, then the given element                            *)
InterOK(inter, ref, pats, mult, align, elems) ==
    \A p \in 1..Len(pats) :
       LET a == Elements(inter, pats, p, 2 * mult[p], align)
           b == Elements(ref, pats, p, mult[p], align)
       IN  /\ Len(a) = 2 * Len(b)
           /\ \A i \in 1..Len(b) : /\ SameElem(Len(pats[p]), a[2 * i - 1], b[i])
                                   /\ SameElem(Len(pats[p]), a[2 * i], elems[p])
(* X-basis version of a dihedral sequence: the same gates between two layers of H     *)
IsHLayer(gs, pats) == LET fl == Flat(pats) IN
    /\ Len(gs) = Len(fl)
    /\ \A i \in 1..Len(gs) : gs[i].g = "U" /\ gs[i].u = uH
    /\ {gs[i].q[1] : i \in 1..Len(gs)} = SetOfSeq(fl)
XVersion(x, z, pats) == LET b == Body(x)  c == Body(z)  w == Len(Flat(pats)) IN
    /\ Len(b) = Len(c) + 2 * w
    /\ IsHLayer(SubSeq(b, 1, w), pats) /\ IsHLayer(SubSeq(b, Len(b) - w + 1, Len(b)), pats)
    /\ SubSeq(b, w + 1, Len(b) - w) = c
(* dihedral elements permute basis states up to phase                                 *)
Monomial(k, e) == \A x \in 0..(Pow2(k) - 1) : \E y \in 0..(Pow2(k) - 1) : IsKet(Run(Ket(k, x), e), y)
(* purity: reference followed by the labelled rotation of qubit i of every group      *)
RotOf(c) == CASE c = "X" -> <<1, 0, 6, 6, 0>> [] c = "Y" -> <<1, 0, 4, 0, 0>> [] OTHER -> uI
PurityOK(gs, ref, pats, lab) ==
    LET b == Body(gs)  r == Body(ref) IN
    /\ Len(b) >= Len(r) /\ SubSeq(b, 1, Len(r)) = r
    /\ LET tail == SubSeq(b, Len(r) + 1, Len(b)) IN
       /\ Separate(tail, pats)
       /\ \A p \in 1..Len(pats) : \A i \in 1..Len(pats[p]) :
            LET grp == <<pats[p][i]>> IN
            SameUnitary(1, Local(tail, grp), << U1(RotOf(lab[i]), 0) >>)
       /\ \A j \in 1..Len(tail) : Len(tail[j].q) = 1

(* ---- names and lengths -------------------------------------------------------------- *)
SeqName(kind, li, s) == kind \o "_length_" \o ToString(li) \o "_seed_" \o ToString(s)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
XData(lens, mult) == [p \in 1..Len(mult) |-> [i \in 1..Len(lens) |-> lens[i] * mult[p]]]
=============================================================================
