------------------------------- MODULE MCRBSeq -------------------------------
(* Grow a simultaneous sequence element by element, emit a circuit at chosen       *)
(* lengths by appending each group's inverse.  Laws: every emitted circuit returns  *)
(* to the ground state, shorter ones are prefixes, the interleaved twin follows the *)
(* reference, and the judging operators notice a dropped or exchanged element.      *)
EXTENDS RBSeq, Json
CONSTANTS MaxLen, Pats, Mults
PatsQ == {<< <<0>> >>, << <<1, 0>> >>, << <<2>>, <<0, 1>> >>, << <<1>>, <<0>> >>}
PatsT == {<< <<0>> >>, << <<1, 0>> >>, << <<1>>, <<0>> >>}
MultsQ == {<<1>>, <<2>>, <<1, 1>>, <<1, 3>>}
VARIABLES pats, mult, align, word, iword, out, iout, n
vars == <<pats, mult, align, word, iword, out, iout, n>>
(* elements: self-made Cliffords per group size, with their inverses                  *)
E1 == << <<U1(uH, 0)>>, <<U1(uS, 0)>>, <<U1(uX, 0), U1(uS, 0)>> >>
E2 == << <<CXg(0, 1)>>, <<U1(uH, 0), CXg(1, 0)>>, <<U1(uS, 1), CXg(0, 1)>> >>
El(k) == IF k = 1 THEN E1 ELSE E2
InvG(g) == IF g.g = "U" THEN [g EXCEPT !.u = CASE g.u = uS -> uSdg [] g.u = uSdg -> uS [] OTHER -> g.u] ELSE g
Inv(gs) == [i \in 1..Len(gs) |-> InvG(gs[Len(gs) + 1 - i])]
Place(gs, grp) == [i \in 1..Len(gs) |-> [gs[i] EXCEPT !.q = [j \in 1..Len(gs[i].q) |-> grp[gs[i].q[j] + 1]]]]
Bar(grp) == [g |-> "B", q |-> grp]
Inter(k) == IF k = 1 THEN <<U1(uY, 0)>> ELSE <<CXg(1, 0)>>
Init == /\ pats \in Pats /\ mult \in Mults /\ Len(mult) = Len(pats) /\ align \in BOOLEAN
        /\ word = <<>> /\ iword = <<>> /\ out = <<>> /\ iout = <<>> /\ n = 0
(* one round: mult[p] elements for each group                                          *)
Pick == [1..Len(pats) -> 1..3]
Round(ch) ==
    FlattenSeq([p \in 1..Len(pats) |-> FlattenSeq([m \in 1..mult[p] |->
        Place(El(Len(pats[p]))[((ch[p] + m - 2) % 3) + 1], pats[p]) \o <<Bar(pats[p])>>])])
    \o (IF align THEN <<Bar(Flat(pats))>> ELSE <<>>)
IRound(ch) ==
    FlattenSeq([p \in 1..Len(pats) |-> FlattenSeq([m \in 1..mult[p] |->
        Place(El(Len(pats[p]))[((ch[p] + m - 2) % 3) + 1], pats[p]) \o <<Bar(pats[p])>>
        \o Place(Inter(Len(pats[p])), pats[p]) \o <<Bar(pats[p])>>])])
    \o (IF align THEN <<Bar(Flat(pats))>> ELSE <<>>)
Grow == n < MaxLen /\ (\E ch \in Pick : word' = word \o Round(ch) /\ iword' = iword \o IRound(ch))
        /\ n' = n + 1 /\ UNCHANGED <<pats, mult, align, out, iout>>
Tl(w) == FlattenSeq([p \in 1..Len(pats) |-> Place(Inv(Local(w, pats[p])), pats[p])])
Meas == [i \in 1..Len(Flat(pats)) |-> [g |-> "M", q |-> <<Flat(pats)[i]>>, c |-> <<i - 1>>]]
Snap == /\ n > 0 /\ (IF out = <<>> THEN TRUE ELSE Last(out)[1] < n)
        /\ out' = Append(out, <<n, word \o Tl(word) \o Meas>>)
        /\ iout' = Append(iout, <<n, iword \o Tl(iword) \o Meas>>)
        /\ UNCHANGED <<pats, mult, align, word, iword, n>>
Next == Grow \/ Snap
Spec == Init /\ [][Next]_vars
Ground == \A i \in 1..Len(out) : /\ SeqOK(out[i][2], pats) /\ MeasOK(out[i][2], pats)
                                 /\ SeqOK(iout[i][2], pats)
Counts == \A i \in 1..Len(out) : /\ CountOK(out[i][2], pats, out[i][1], mult, align, 1)
                                 /\ CountOK(iout[i][2], pats, out[i][1], mult, align, 2)
PrefixLaw == \A i \in 1..Len(out) : PrefixOK(out[i][2], Last(out)[2], pats, mult, align, 1)
Interleaves == \A i \in 1..Len(out) :
     InterOK(iout[i][2], out[i][2], pats, mult, align, [p \in 1..Len(pats) |-> Inter(Len(pats[p]))])
(* sensitivity: dropping the inverse of a sequence that is not the identity is noticed  *)
Sensitive == \A i \in 1..Len(out) : LET w == word IN
     (n = out[i][1] /\ \E p \in 1..Len(pats) : ~ReturnsGround(w, pats[p])) => ~SeqOK(w, pats)
Report == (Len(out) = 2 /\ n = MaxLen) =>
     Emit(ToJson([pats |-> pats, mult |-> mult, align |-> align, lens |-> [i \in 1..2 |-> out[i][1]]]))
=============================================================================
