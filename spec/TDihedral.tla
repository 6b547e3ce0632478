------------------------------- MODULE TDihedral -------------------------------
(* Histories over a heap of elements; the specification keeps the denotation of     *)
(* every slot and each observation has to match it.                                  *)
EXTENDS Dihedral, TraceBase
VARIABLES heap
vars == <<l, heap>>
Init == l = 1 /\ heap = <<>>
Keep == UNCHANGED heap
Put(i, d) == heap' = IF i <= Len(heap) THEN [heap EXCEPT ![i] = d] ELSE Append(heap, d)
H(i) == heap[i]
Result == CASE Ev.op = "id" -> Id(Ev.n)
            [] Ev.op = "circuit" -> RunM(Ev.n, Ev.src)
            [] Ev.op = "copy" -> H(Ev.a)
            [] Ev.op = "cnot" -> Cnot(H(Ev.a), Ev.x, Ev.y)
            [] Ev.op = "phase" -> Phase(H(Ev.a), Ev.x, Ev.y)
            [] Ev.op = "flip" -> Flip(H(Ev.a), Ev.x)
            [] Ev.op = "compose" -> Seq2(H(Ev.a), H(Ev.b))
            [] Ev.op = "dot" -> Seq2(H(Ev.b), H(Ev.a))
            [] Ev.op = "adjoint" -> Adj(H(Ev.a))
            [] Ev.op = "conjugate" -> Conj(H(Ev.a))
            [] Ev.op = "transpose" -> Transp(H(Ev.a))
            [] Ev.op = "power" -> PowD(H(Ev.a), Ev.x)
            [] Ev.op = "tensor" -> Tens(H(Ev.a), H(Ev.b))
            [] Ev.op = "expand" -> Tens(H(Ev.b), H(Ev.a))
(* word of in-place gates on a fresh identity                                        *)
Apply(d, w) == CASE w.op = "cnot" -> Cnot(d, w.x, w.y)
                 [] w.op = "phase" -> Phase(d, w.x, w.y)
                 [] OTHER -> Flip(d, w.x)
Word == Keep /\ LET d == FoldLeft(LAMBDA e, w : TLCEval(Apply(e, w)), Id(Ev.n), Ev.word) IN Judge(<<
   <<"element_of_word_converts_to_its_circuit", Denotes(Ev.n, Ev.gates, d)>>,
   <<"element_of_word_is_valid", Ev.valid>>,
   <<"rebuilding_from_its_circuit_gives_an_equal_element", Ev.rebuilt>> >>)
Do == /\ Put(Ev.r, TLCEval(Result))
      /\ Judge(<< <<"operation_succeeds", Ev.got = "ok">> >>)
(* every live element still denotes what the history says                             *)
Obs == Keep /\ Judge(<<
   <<"circuit_implements_element", Denotes(H(Ev.a).n, Ev.gates, H(Ev.a))>>,
   <<"element_valid", Ev.valid>> >>)
Mat == Keep /\ Judge(<< <<"matrix_is_the_unitary", OfMatrix(H(Ev.a).n, Ev.m) = H(Ev.a)>> >>)
Poly == Keep /\ Judge(<<
   <<"phase_polynomial_gives_the_phases", \A i \in Dom(H(Ev.a).n) :
        (Ev.ph[i] + 8 - Ev.ph[1]) % 8 = H(Ev.a).ph[i]>>,
   <<"affine_part_gives_the_permutation", Ev.f = H(Ev.a).f>> >>)
Equal == Keep /\ Judge(<< <<"equal_iff_same_unitary", Ev.eq = (H(Ev.a) = H(Ev.b))>> >>)
Random == /\ Put(Ev.r, IF MonoCirc(Ev.gates) THEN RunM(Ev.n, Ev.gates) ELSE Id(Ev.n))
          /\ Judge(<< <<"random_element_in_group", MonoCirc(Ev.gates) /\ InGroup(RunM(Ev.n, Ev.gates))>>,
                <<"random_element_valid", Ev.valid>> >>)
Repro == Keep /\ Judge(<< <<"same_seed_reproduces", Ev.same>> >>)
Reject == Keep /\ Judge(<< <<"outside_group_rejected", Ev.got = "err">> >>)
Dict == Keep /\ Judge(<< <<"dictionary_circuits_implement_their_elements",
        \A i \in 1..Len(Ev.items) : Denotes(Ev.n, Ev.items[i].gates, FoldLeft(LAMBDA e, w : TLCEval(Apply(e, w)), Id(Ev.n), Ev.items[i].word))>>,
        <<"dictionary_size", Ev.size = Ev.want>> >>)
(* ---- elements by their parts: coefficients, linear map, shift -------------------------- *)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
LinVal(lin, n, x) == SumSeq([i \in 1..n |-> Pow2(i - 1) * (SumSeq([j \in 1..n |-> lin[i][j] * Bit(x, j - 1)]) % 2)])
Invertible(lin, n) == \A x \in 1..(Pow2(n) - 1) : LinVal(lin, n, x) # 0
Binary(s) == RangeOf(s) \subseteq {0, 1}
ValidParts(e, n) ==
    /\ e.w0 = 0 /\ RangeOf(e.w1) \subseteq 0..7 /\ RangeOf(e.w2) \subseteq {0, 2, 4, 6} /\ RangeOf(e.w3) \subseteq {0, 4}
    /\ Binary(e.sh) /\ \A i \in 1..n : Binary(e.lin[i])
    /\ Invertible(e.lin, n)
All(es, f(_)) == UNION {RangeOf(f(es[i])) : i \in 1..Len(es)}
Coverage == Keep /\ LET es == Ev.es  n == Ev.n IN Judge(<<
   <<"random_elements_valid", \A i \in 1..Len(es) : ValidParts(es[i], n)>>,
   <<"random_phases_reach_the_whole_group", /\ All(es, LAMBDA e : e.w1) = 0..7
                                            /\ n > 1 => All(es, LAMBDA e : e.w2) = {0, 2, 4, 6}
                                            /\ n > 2 => All(es, LAMBDA e : e.w3) = {0, 4}>>,
   <<"random_maps_reach_the_whole_group", /\ n = 1 => Cardinality(RangeOf(es)) = 16
                                          /\ n = 2 => Cardinality({es[i].lin : i \in 1..Len(es)}) = 6
                                          /\ n <= 2 => Cardinality({es[i].sh : i \in 1..Len(es)}) = Pow2(n)
                                          /\ n > 2 => \A a, b \in 1..n : {es[i].lin[a][b] : i \in 1..Len(es)} = {0, 1}
                                          /\ \A a \in 1..n : {es[i].sh[a] : i \in 1..Len(es)} = {0, 1}>> >>)
Validate == Keep /\ Judge(<<
   <<"validation_accepts_exactly_the_group", Ev.valid = ValidParts(Ev.e, Ev.n)>>,
   <<"constructor_validates", (Ev.ctor = "ok") = ValidParts(Ev.e, Ev.n)>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> heap' = <<>>
             [] Ev.ev = "do" -> Do
             [] Ev.ev = "word" -> Word
             [] Ev.ev = "obs" -> Obs
             [] Ev.ev = "mat" -> Mat
             [] Ev.ev = "poly" -> Poly
             [] Ev.ev = "equal" -> Equal
             [] Ev.ev = "random" -> Random
             [] Ev.ev = "repro" -> Repro
             [] Ev.ev = "reject" -> Reject
             [] Ev.ev = "dict" -> Dict
             [] Ev.ev = "coverage" -> Coverage
             [] Ev.ev = "validate" -> Validate
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
