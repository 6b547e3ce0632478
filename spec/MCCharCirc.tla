------------------------------- MODULE MCCharCirc -------------------------------
(* Every small characterization configuration: the documented words carry the          *)
(* reported delay, end where the fitter expects, and are replayed into the generators. *)
EXTENDS CharCirc, Json
CONSTANTS QLists, NLists, MaxEchos
QL == {<<0>>, <<1>>, <<2, 0>>, <<1, 2>>, <<0, 2, 1>>}
NL == {<<1>>, <<0, 1>>, <<1, 3>>, <<2, 3, 5>>}
VARIABLES p, done
vars == <<p, done>>
Kinds == {"t1", "t2", "t2star", "zz", "ampcal1Q", "anglecal1Q", "ampcalcx", "anglecalcx"}
Other(qs) == [i \in 1..Len(qs) |-> 3 + ((i * 2) % 3)]
Init == /\ done = FALSE
        /\ p \in {[kind |-> k, qubits |-> qs, ns |-> ns, echos |-> e, alt |-> a, nosc |-> o, reps |-> Len(ns),
                   others |-> Other(qs)] :
                  k \in Kinds, qs \in QLists, ns \in NLists, e \in 1..MaxEchos, a \in {TRUE, FALSE}, o \in {0, 2}}
        /\ p.kind # "t2" => p.echos = 1 /\ ~p.alt
        /\ p.kind \notin {"t2star", "zz"} => p.nosc = 0
Next == ~done /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Delays(w) == Len(SelectSeq(w, LAMBDA x : x.t = "I"))
Final(w) == FoldLeft(LAMBDA s, x : IF x.t = "V" THEN TLCEval(CApp1(s, x.m, 0))
                     ELSE IF x.t = "CX" THEN TLCEval(CApp1(s, vX, 0)) ELSE s, CKet(1, 0), w)
DelayIsAbscissa == Coherence(p) => \A i \in 1..NPoints(p) : Delays(WordOf(p, i)) = Absc(p, i)
(* T1 ends excited, one echo returns to the ground state, Ramsey shows cos^2, the gate     *)
(* calibrations sit at one half                                                            *)
P1(i) == CProb(Final(WordOf(p, i)), 1)
EndsWhereExpected == \A i \in 1..NPoints(p) :
   CASE p.kind = "t1" -> Near(P1(i), M, 30)
     [] p.kind = "t2" -> p.alt \/ Near(P1(i), IF p.echos % 2 = 1 THEN 0 ELSE M, 60)
     [] p.kind \in {"t2star", "zz"} ->
          Near(2 * P1(i), M - CosT(Micro(p.nosc * p.ns[i], p.ns[Len(p.ns)])), 60)
     [] OTHER -> Near(P1(i), M \div 2, 200)
Turns == \A f \in {0, 62500, 125000, 250000, 375000, 500000, 750000, 900000} :
           Near(Mul(CosT(f), CosT(f)) + Mul(SinT(f), SinT(f)), M, 20)
Report == done => Emit(ToJson(p))
=============================================================================
