-------------------------------- MODULE MCRBUtils --------------------------------
(* Circuits of several seeds grow gate by gate; laws of counting and of the conversion  *)
(* formulas are invariants.  Completed circuits are replayed into gates_per_clifford.   *)
EXTENDS RBUtils, Json
CONSTANTS MaxGates
VARIABLES seeds
vars == <<seeds>>
Gates == {<<"u1", <<0>>>>, <<"u2", <<1>>>>, <<"u3", <<0>>>>, <<"cx", <<0, 1>>>>, <<"cx", <<1, 0>>>>, <<"u2", <<2>>>>}
Lens == <<1, 3>>
Blank == << << <<>>, <<>> >>, << <<>>, <<>> >> >>
Size(x) == SumSeq([s \in 1..2 |-> Len(x[s][1]) + Len(x[s][2])])
Init == seeds = Blank
Next == Size(seeds) < MaxGates /\ \E s \in 1..2, j \in 1..2, g \in Gates :
          seeds' = [seeds EXCEPT ![s][j] = Append(@, g)]
Spec == Init /\ [][Next]_vars
Names == {"u1", "u2", "u3", "cx"}
Handshake == CountAll(seeds, "cx", 0) = CountAll(seeds, "cx", 1)
Complete == SumOver(Names, LAMBDA n : CountAll(seeds, n, 0) + CountAll(seeds, n, 1) + CountAll(seeds, n, 2))
            = Size(seeds) + CountAll(seeds, "cx", 0)
GpcBounded == \A n \in Names, q \in 0..2 : LET g == Gpc(seeds, Lens, n, q) IN
                 g >= 0 /\ g <= Micro(Size(seeds), NCliffs(seeds, Lens))
Mixes == {<< <<"u1", 250000>>, <<"u2", a>>, <<"u3", b>>, <<"cx", c>> >> :
             a \in {0, 310000, M}, b \in {510000, 1500000}, c \in {M, 1500000}}
Errs == {<< <<"u1", 0>>, <<"u2", e>>, <<"u3", 2 * e>> >> : e \in {0, 1000, 40000}}
(* evaluated once, in the initial state                                                   *)
Formulas == (seeds = Blank) =>
   /\ \A m \in Mixes, e \in Errs :
        LET c == Epc1(m, e) IN
        /\ c >= -3 /\ c < M
        /\ (Get(m, "u2") \in {0, M} /\ Get(m, "u3") >= M)                          \* union bound
              => c <= Mul(Get(m, "u2"), e[2][2]) + Mul(Get(m, "u3"), e[3][2]) + 12
        /\ (e[2][2] <= 1000 => Near(Epg1Base(m, c), e[2][2], 20))                  \* inverse to first order
   /\ \A m \in Mixes, e \in Errs, g \in {0, 5000, 60000} :
        LET c == Epc2(m, m, e, e, g, "cx") IN
        /\ c >= -9 /\ c < 750000
        /\ (Get(m, "cx") = M => Near(Epg2(m, m, e, e, c, "cx"), g, 30))            \* exact inverse
        /\ Epc2(m, m, e, e, g, "cx") + 9 >= Epc2(m, m, e, <<>>, g, "cx")
   /\ \A r \in {0, 1000, 50000, 400000} :
        /\ Near(Coh1(r, r), (M - ExpNeg(r)) \div 2, 3)
        /\ Near(Coh2(<<0, r>>, <<0, r>>), Coh2(<<r, 0>>, <<r, 0>>), 2)             \* symmetric
        /\ Coh2(<<r, r>>, <<r, r>>) + 3 >= Coh1(r, r)
   /\ \A x \in {100000, 500000, 950000, M, 2500000} : Near(Exp(Ln(x)), x, 12)
   /\ Near(Exp(-M), 367879, 2) /\ Near(Ln(2 * M), Ln2, 4) /\ Near(Pow(4 * M, 500000), 2 * M, 20)
Report == Size(seeds) = MaxGates => Emit(ToJson([seeds |-> seeds, lens |-> Lens]))
=============================================================================
