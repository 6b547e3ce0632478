-------------------------------- MODULE MCRepCode --------------------------------
(* Construction histories of the code (logical flips and syndrome rounds in any order,     *)
(* then the readout).  For every completed history the symbolic execution decides the       *)
(* effect of all faults.                                                                     *)
EXTENDS RepCode, Json
CONSTANTS Ds, MaxOps
VARIABLES d, ops, done
vars == <<d, ops, done>>
Op(o) == o \in {[op |-> "x", logs |-> <<"0", "1">>], [op |-> "x", logs |-> <<"1">>], [op |-> "round", reset |-> TRUE]}
Init == d \in Ds /\ ops = <<>> /\ done = FALSE
Step == ~done /\ Len(ops) < MaxOps /\ \E o \in {[op |-> "x", logs |-> <<"0", "1">>], [op |-> "x", logs |-> <<"1">>],
                                          [op |-> "round", reset |-> TRUE], [op |-> "round", reset |-> FALSE]} :
          ops' = Append(ops, o) /\ UNCHANGED <<d, done>>
Read == ~done /\ done' = TRUE /\ ops' = Append(ops, [op |-> "readout"]) /\ UNCHANGED d
Next == Step \/ Read
Spec == Init /\ [][Next]_vars
(* parities are meaningful when links start every round in 0                                  *)
Rounds == SelectSeq(ops, LAMBDA o : o.op = "round")
Regular == \A i \in 1..(Len(Rounds) - 1) : Rounds[i].reset
Laws == done => \A log \in {"0", "1"} :
   LET C == CircuitOf(d, ops, log)  T == C.t
       R == SymRun(NQ(d), NC(d, T), C.gs)
       r == SymRaw(d, T, R.c)
       p == SymProcess(d, T, r)
   IN Regular =>
      /\ \A t \in 1..(T + 1), e \in 1..(d - 1) : p.ch[t][e].c = 0
      /\ p.log[1].c = Stored(ops, log) /\ p.log[2].c = Stored(ops, log)
      /\ Pairwise(p)
      /\ \A i \in 1..Len(C.gs) : \A k \in 1..Len(C.gs[i].q) : C.gs[i].q[k] >= d - 1 =>
            CodeFaultOK(d, T, C.gs, p, i, C.gs[i].q[k] - (d - 1))
      /\ \A t \in 0..(T - 1), j \in 0..(d - 2) : ReadFlipOK(d, T, p, t, j)
Report == done => Emit(ToJson([d |-> d, ops |-> ops]))
=============================================================================
