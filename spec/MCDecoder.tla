-------------------------------- MODULE MCDecoder --------------------------------
(* Fault sets of the repetition-code circuit grow one fault at a time.  As long as at most  *)
(* (d-1)/2 faults occurred, the cheapest explanation of the observed events restores the      *)
(* stored value; with any number of faults the two corrected boundary values agree.           *)
EXTENDS RepCode, Json
CONSTANTS D, T, MaxFaults
VARIABLES log, faults
vars == <<log, faults>>
Ops == [i \in 1..T |-> [op |-> "round", reset |-> i # T]] \o <<[op |-> "readout"]>>
Gates(x) == CircuitOf(D, Ops, x).gs
PX == [x \in {"0", "1"} |-> SymProcess(D, T, SymRaw(D, T, SymRun(NQ(D), NC(D, T), Gates(x)).c))]
P == TLCEval(PX)
E0 == TLCEval(Edges(P["0"], TRUE))
DD == TLCEval([a \in GNodes(E0) |-> [b \in GNodes(E0) |-> Dist(E0, a, b)]])
(* one representative fault per edge of the graph (others act identically)                      *)
Reps == TLCEval({CHOOSE f \in Symbols(P["0"]) : f[1] # 0 /\ NodesOfSym(P["0"], f) = e : e \in E0})
Init == log \in {"0", "1"} /\ faults = {}
Next == Cardinality(faults) < MaxFaults /\ \E f \in Reps : f \notin faults /\ faults' = faults \cup {f} /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
Obs == EvalProc(P["0"], faults)
N == NodesOfProc(Obs)
Cost(v) == Best(DD, N, <<BXor(Obs.log[1], v), BXor(Obs.log[2], v)>>)
Restores == (2 * Cardinality(faults) < D) => Cost(0) < Cost(1)
Explains == Cost(0) <= Cardinality(faults)
Agree == /\ (N # {} => Best(DD, N, <<Obs.log[1], 1 - Obs.log[2]>>) >= INF)
GraphLaws == faults = {} => /\ \A e \in E0 : Cardinality(e) = 2
   /\ GNodes(E0) = {<<0, 0, 0>>, <<0, 1, 0>>} \cup {<<1, t, e>> : t \in 0..T, e \in 0..(D - 2)}
   /\ DD[<<0, 0, 0>>][<<0, 1, 0>>] = D
   /\ Edges(P["1"], TRUE) # {} /\ Edges(P["0"], FALSE) = E0     \* readout flips add no new pairs
Report == (Cardinality(faults) = MaxFaults \/ faults = {}) => Emit(ToJson([d |-> D, T |-> T, log |-> log, faults |-> SetToSeq(faults)]))
=============================================================================
