--------------------------------- MODULE TDecoder ---------------------------------
EXTENDS RepCode, Reals, TraceBase
VARIABLES c, E, DD, P, W
vars == <<l, c, E, DD, P, W>>
Init == l = 1 /\ c = <<>> /\ E = {} /\ DD = <<>> /\ P = <<>> /\ W = <<>>
Keep == UNCHANGED <<c, E, DD, P, W>>
SameNodes(s) == {s[i] : i \in 1..Len(s)}
(* the code's circuit for a stored 0 and the decoder's graph                                    *)
GraphEv == LET R == SymRun(NQ(c.d), NC(c.d, c.T), Ev.gs)
               p == TLCEval(SymProcess(c.d, c.T, SymRaw(c.d, c.T, R.c)))
               e == TLCEval(Edges(p, TRUE))
   IN  P' = p /\ E' = e /\ UNCHANGED <<c, W>>
       /\ DD' = TLCEval([a \in GNodes(e) |-> [b \in GNodes(e) |-> Dist(e, a, b)]])
       /\ Judge(<<
            <<"graph_edges_are_the_pairs_a_single_fault_makes", {{Ev.edges[i][1], Ev.edges[i][2]} : i \in 1..Len(Ev.edges)} = e>>,
            <<"graph_nodes_are_the_events", SameNodes(Ev.nodes) = GNodes(e)>>,
            <<"graph_edges_have_unit_distance", \A i \in 1..Len(Ev.w) : Ev.w[i] = M>> >>)
ErrEv == LET nd == NodesOfProc(Ev.str) \cup {<<0, 0, 0>>, <<0, 1, 0>>} IN Keep /\ Judge(<<
   <<"error_graph_has_the_observed_events", SameNodes(Ev.nodes) = nd>>,
   <<"error_graph_weights_are_negated_distances",
       /\ {{Ev.edges[i][1], Ev.edges[i][2]} : i \in 1..Len(Ev.edges)} = {{a, b} : <<a, b>> \in {x \in nd \X nd : x[1] # x[2]}}
       /\ \A i \in 1..Len(Ev.edges) : Ev.w[i] = -DD[Ev.edges[i][1]][Ev.edges[i][2]]>> >>)
DecEv == LET F == {Ev.faults[i] : i \in 1..Len(Ev.faults)}
             pr == EvalProc(P, F)
             base == ValOfLog(Ev.log)
             nd == NodesOfProc(Ev.str)
             cost(v) == Best(DD, nd, <<BXor(Ev.str.log[1], v), BXor(Ev.str.log[2], v)>>)
   IN Keep /\ Judge(<<
   <<"string_shows_the_injected_faults", Ev.inj =>
        /\ Ev.str.ch = pr.ch /\ Ev.str.log = <<BXor(pr.log[1], base), BXor(pr.log[2], base)>>>>,
   <<"few_faults_are_corrected", (Ev.inj /\ 2 * Cardinality(F) < c.d) => Ev.out = <<base, base>>>>,
   <<"corrected_boundary_values_agree", (Ev.inj \/ Ev.valid) => Len(Ev.out) = 2 /\ Ev.out[1] = Ev.out[2]>>,
   <<"correction_is_a_cheapest_explanation", (Cardinality(nd) <= 5 /\ (Ev.inj \/ Ev.valid)) =>
        LET v == Ev.out[1] IN v \in {0, 1} /\ cost(v) <= cost(1 - v)>> >>)
(* logical error probabilities: strs is a table of <<string id, corrected first value, shots, clean>> *)
Wrong(tab, log) == SumSeq([i \in 1..Len(tab) |-> IF tab[i].out # ValOfLog(log) THEN tab[i].n ELSE 0])
TotalN(tab) == SumSeq([i \in 1..Len(tab) |-> tab[i].n])
ProbEv == Keep /\ Judge(<< <<"logical_error_is_fraction_of_wrongly_decoded_shots",
     /\ Len(Ev.p) = Len(Ev.tabs)
     /\ \A i \in 1..Len(Ev.tabs) : \E k \in 1..Len(Ev.p) : Ev.p[k][1] = Ev.tabs[i].log
          /\ Near(Ev.p[k][2], Micro(Wrong(Ev.tabs[i].tab, Ev.tabs[i].log), TotalN(Ev.tabs[i].tab)), 2)>> >>)
PostEv == Keep /\ Judge(<< <<"postselection_keeps_trivial_syndromes",
     \A i \in 1..Len(Ev.tabs) : LET t == SelectSeq(Ev.tabs[i].tab, LAMBDA r : NodesOfProc(r) = {}) IN
        \E k \in 1..Len(Ev.p) : Ev.p[k][1] = Ev.tabs[i].log
          /\ Near(Ev.p[k][2], Micro(SumSeq([j \in 1..Len(t) |-> IF t[j].log[1] # ValOfLog(Ev.tabs[i].log) THEN t[j].n ELSE 0]), TotalN(t)), 2)>> >>)
(* lookup: a shot is wrong when the training data saw its string more often for the other value   *)
Train(log, id) == SumSeq([j \in 1..Len(Ev.train) |-> IF Ev.train[j].log = log /\ Ev.train[j].id = id THEN Ev.train[j].n ELSE 0])
Other(log) == IF log = "0" THEN "1" ELSE "0"
LookEv == Keep /\ Judge(<< <<"lookup_compares_training_frequencies",
     \A i \in 1..Len(Ev.tabs) : LET lg == Ev.tabs[i].log  t == Ev.tabs[i].tab IN
        \E k \in 1..Len(Ev.p) : Ev.p[k][1] = lg
          /\ Near(Ev.p[k][2], Micro(SumSeq([j \in 1..Len(t) |-> IF Train(Other(lg), t[j].id) > Train(lg, t[j].id) THEN t[j].n ELSE 0]), TotalN(t)), 2)>> >>)
(* estimated weights: |log-ratio| of agreeing or of disagreeing observations, whichever is larger  *)
CountPair(tab, a, b, x, y) == SumSeq([i \in 1..Len(tab) |->
     LET nd == NodesOfProc(tab[i]) \cup (IF tab[i].log[1] = 1 THEN {<<0, 0, 0>>} ELSE {}) \cup (IF tab[i].log[2] = 1 THEN {<<0, 1, 0>>} ELSE {})
     IN  IF ((a \in nd) = (x = 1)) /\ ((b \in nd) = (y = 1)) THEN tab[i].n ELSE 0])
LogR(a, b) == Abs(Ln(a * M) - Ln(b * M))
LnI(n) == IF n < 30 THEN Ln(n * M) ELSE Ln(Micro(n, 1024)) + 10 * Ln2
Ratio(a, b) == Abs(LnI(a) - LnI(b))
(* all-pairs distances of the weighted graph                                                        *)
WeightOf(es, ws, a, b) == LET k == {i \in 1..Len(es) : {es[i][1], es[i][2]} = {a, b}} IN
    IF a = b THEN 0 ELSE IF k = {} THEN 1000 * M ELSE MaxI(0, ws[CHOOSE i \in k : TRUE])
AllPairs(N, es, ws) == FoldLeft(LAMBDA D, k :
      TLCEval([a \in N |-> TLCEval([b \in N |-> MinI(D[a][b], D[a][k] + D[k][b])])]),
      TLCEval([a \in N |-> TLCEval([b \in N |-> WeightOf(es, ws, a, b)])]), SetToSeq(N))
(* edge lengths are used as whole numbers: each path may lose less than one unit                     *)
WDecEv == LET nd == NodesOfProc(Ev.str)
              cost(v) == Best(W, nd, <<BXor(Ev.str.log[1], v), BXor(Ev.str.log[2], v)>>)
   IN Keep /\ Judge(<<
   <<"error_graph_follows_the_weights", \A i \in 1..Len(Ev.edges) :
        Abs(Ev.w[i] + W[Ev.edges[i][1]][Ev.edges[i][2]]) <= M + 100>>,
   <<"corrected_boundary_values_agree", Len(Ev.out) = 2 /\ Ev.out[1] = Ev.out[2]>>,
   <<"correction_is_a_cheapest_weighted_explanation", Cardinality(nd) <= 4 =>
        LET v == Ev.out[1] IN v \in {0, 1} /\ cost(v) <= cost(1 - v) + Cardinality(nd) * M>> >>)
WeightEv == UNCHANGED <<c, E, DD, P>> /\ W' = TLCEval(AllPairs(GNodes(E), Ev.edges, Ev.w)) /\ Judge(<< <<"weights_estimate_edge_probabilities",
     /\ {{Ev.edges[i][1], Ev.edges[i][2]} : i \in 1..Len(Ev.edges)} = E
     /\ \A i \in 1..Len(Ev.edges) :
       LET a == Ev.edges[i][1]  b == Ev.edges[i][2]
           n(x, y) == CountPair(Ev.tab, a, b, x, y)
       IN  (\A x, y \in {0, 1} : n(x, y) > 0) =>
               Near(Ev.w[i], MaxI(Ratio(n(0, 0), n(1, 1)), Ratio(n(0, 1), n(1, 0))), 60)>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> c' = Ev /\ UNCHANGED <<E, DD, P, W>>
             [] Ev.ev = "graph" -> GraphEv
             [] Ev.ev = "errgraph" -> ErrEv
             [] Ev.ev = "decode" -> DecEv
             [] Ev.ev = "prob" -> ProbEv
             [] Ev.ev = "post" -> PostEv
             [] Ev.ev = "lookup" -> LookEv
             [] Ev.ev = "wdecode" -> WDecEv
             [] Ev.ev = "weights" -> WeightEv
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
