------------------------------- MODULE TRBSeq -------------------------------
EXTENDS RBSeq, TraceBase
VARIABLES c, names, drawn
vars == <<l, c, names, drawn>>
Init == l = 1 /\ c = <<>> /\ names = {} /\ drawn = <<>>
Keep == UNCHANGED <<c, names, drawn>>
(* sequences long enough that independent draws do not coincide                          *)
Enough(s) == (s.k = 1 /\ Len(s.es) >= 6) \/ (s.k >= 2 /\ Len(s.es) >= 2)
Draws == [p \in 1..Len(c.pats) |-> [k |-> Len(c.pats[p]),
            es |-> Elements(Last(Ev.ref).gates, c.pats, p, c.mult[p], c.align)]]
Dihedral == c.group = 1
Pre == IF Dihedral THEN "rb_cnotdihedral" ELSE "rb"
Kind(v) == Pre \o (IF v \in {"inter", "interx"} THEN "_interleaved" ELSE "")
               \o (IF Dihedral THEN (IF v \in {"x", "interx"} THEN "_X" ELSE "_Z") ELSE "")
Shape == Keep /\ Judge(<<
   <<"one_list_per_seed", Ev.nseeds = c.nseeds>>,
   <<"lengths_reported_with_multiplier", Ev.xdata = XData(c.lens, c.mult)>> >>)
(* all circuits of one seed                                                            *)
NamesOK(fam, v) == \A i \in 1..Len(fam) : fam[i].name = SeqName(Kind(v), i - 1, Ev.seed + c.offset)
Long(fam) == Last(fam).gates
Family == LET r == Ev.ref IN
  /\ names' = names \cup {r[i].name : i \in 1..Len(r)}
  /\ UNCHANGED c
  /\ drawn' = drawn \o Draws
  /\ Judge(<<
   <<"groups_and_seeds_drawn_independently", LET d == drawn' IN
        \A i, j \in 1..Len(d) : (i < j /\ Enough(d[i]) /\ Enough(d[j])) => d[i] # d[j]>>,
   <<"one_circuit_per_length", Len(r) = Len(c.lens)>>,
   <<"named_after_seed_and_length", NamesOK(r, "ref")>>,
   <<"names_unique", {r[i].name : i \in 1..Len(r)} \cap names = {}>>,
   <<"groups_do_not_touch", \A i \in 1..Len(r) : AllKnown(r[i].gates) /\ Separate(r[i].gates, c.pats)>>,
   <<"returns_to_ground_state", \A i \in 1..Len(r) : AllGround(r[i].gates, c.pats)>>,
   <<"ith_qubit_measured_into_bit_i", \A i \in 1..Len(r) : MeasOK(r[i].gates, c.pats)>>,
   <<"number_of_elements", \A i \in 1..Len(r) : CountOK(r[i].gates, c.pats, c.lens[i], c.mult, c.align, 1)>>,
   <<"shorter_is_prefix", \A i \in 1..Len(r) : PrefixOK(r[i].gates, Long(r), c.pats, c.mult, c.align, 1)>>,
   <<"dihedral_elements_monomial", Dihedral => \A p \in 1..Len(c.pats) :
        LET es == Elements(Long(r), c.pats, p, c.mult[p], c.align) IN
        \A i \in 1..Len(es) : Monomial(Len(c.pats[p]), es[i])>>,
   <<"elements_vary", \A p \in 1..Len(c.pats) :
        LET es == Elements(Long(r), c.pats, p, c.mult[p], c.align) IN
        (Len(es) >= 3 /\ Len(c.pats[p]) >= 2) => Cardinality(SetOfSeq(es)) > 1>> >>)
InterEv == LET r == Ev.ref  t == Ev.inter IN Keep /\ Judge(<<
   <<"one_interleaved_per_length", Len(t) = Len(c.lens)>>,
   <<"interleaved_named", NamesOK(t, "inter")>>,
   <<"interleaved_groups_do_not_touch", \A i \in 1..Len(t) : AllKnown(t[i].gates) /\ Separate(t[i].gates, c.pats)>>,
   <<"interleaved_returns_to_ground_state", \A i \in 1..Len(t) : AllGround(t[i].gates, c.pats)>>,
   <<"interleaved_measured", \A i \in 1..Len(t) : MeasOK(t[i].gates, c.pats)>>,
   <<"given_element_after_every_reference_element", \A i \in 1..Len(t) :
        InterOK(t[i].gates, r[i].gates, c.pats, c.mult, c.align, c.elems)>> >>)
XEv == LET z == Ev.z  x == Ev.x IN Keep /\ Judge(<<
   <<"one_x_circuit_per_length", Len(x) = Len(c.lens)>>,
   <<"x_named", NamesOK(x, Ev.variant)>>,
   <<"x_returns_to_ground_state", \A i \in 1..Len(x) : AllKnown(x[i].gates) /\ AllGround(x[i].gates, c.pats)>>,
   <<"x_measured", \A i \in 1..Len(x) : MeasOK(x[i].gates, c.pats)>>,
   <<"x_is_z_sequence_between_h_layers", \A i \in 1..Len(x) : XVersion(x[i].gates, z[i].gates, c.pats)>> >>)
Dim == Len(c.pats[1])
PurName(i, li) == SeqName(Pre \o "_purity_" \o Join(Ev.circs[i].lab), li, Ev.seed + c.offset)
Purity == LET r == Ev.circs IN Keep /\ Judge(<<
   <<"every_rotation_label_once", /\ {r[i].lab : i \in 1..Len(r)} = [1..Dim -> {"X", "Y", "Z"}]
                                  /\ Len(r) = Cardinality([1..Dim -> {"X", "Y", "Z"}])
                                  /\ Ev.npurity = Len(r)>>,
   <<"purity_named", \A i \in 1..Len(r) : r[i].name = PurName(i, Ev.li)>>,
   <<"purity_reference_returns_to_ground", \A i \in 1..Len(r) :
        (\A j \in 1..Dim : r[i].lab[j] = "Z") => SeqOK(r[i].gates, c.pats)>>,
   <<"purity_measured", \A i \in 1..Len(r) : MeasOK(r[i].gates, c.pats)>>,
   <<"only_labelled_rotations_added", LET z == CHOOSE i \in 1..Len(r) : \A j \in 1..Dim : r[i].lab[j] = "Z" IN
        \A i \in 1..Len(r) : AllKnown(r[i].gates) /\ PurityOK(r[i].gates, r[z].gates, c.pats, r[i].lab)>> >>)
Repro == Keep /\ Judge(<<
   <<"same_seed_reproduces", Ev.same>>, <<"other_seed_differs", Ev.other>> >>)
Reject == Keep /\ Judge(<< <<"invalid_request_rejected", Ev.got = "err">> >>)
Accept == Keep /\ Judge(<< <<"documented_group_name_accepted", Ev.got = "ok" /\ Ev.names = Ev.want>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> c' = Ev /\ names' = {} /\ drawn' = <<>>
             [] Ev.ev = "shape" -> Shape
             [] Ev.ev = "family" -> Family
             [] Ev.ev = "inter" -> InterEv
             [] Ev.ev = "x" -> XEv
             [] Ev.ev = "purity" -> Purity
             [] Ev.ev = "repro" -> Repro
             [] Ev.ev = "reject" -> Reject
             [] Ev.ev = "accept" -> Accept
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
