------------------------------- MODULE MCGhz -------------------------------
(* Every connected graph on NV vertices; any schedule of disjoint edges from the cat   *)
(* set outwards prepares the cat state, and the closed forms of the two experiments    *)
(* hold for it.                                                                           *)
EXTENDS Ghz, Json
CONSTANTS NV
VARIABLES cm, root, edges, st, done
vars == <<cm, root, edges, st, done>>
VS == 0..(NV - 1)
Pairs == {p \in VS \X VS : p[1] < p[2]}
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup {b \in VS : \E a \in S : <<a, b>> \in E \/ <<b, a>> \in E} IN IF T = S THEN S ELSE Reach(E, T)
Connected(E) == Reach(E, {0}) = VS
Seqd(E) == SetToSortSeq(E, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Init == /\ \E E \in {E \in SUBSET Pairs : Connected(E)} : cm = Seqd(E)
        /\ root \in VS /\ edges = <<>> /\ st = Run(Ket(NV, 0), <<U1(uH, root)>>) /\ done = {root}
Grow(a, b) == /\ a \in done /\ b \notin done /\ Adj(cm, a, b)
              /\ edges' = Append(edges, <<a, b>>) /\ done' = done \cup {b}
              /\ st' = TLCEval(AppCX(st, a, b)) /\ UNCHANGED <<cm, root>>
Next == \E a, b \in VS : a # b /\ Grow(a, b)
Spec == Init /\ [][Next]_vars
CatState == IsCat(st, done)
Schedules == RunTiers(cm, root, [i \in 1..Len(edges) |-> <<edges[i]>>]) = [cat |-> done, ok |-> TRUE]
(* the closed forms, for rotations by multiples of pi/4                                     *)
Ph(k) == <<0, 0, -1, -1, k % 8>>
U2pm(k) == <<1, 0, (4 + 8 - k) % 8, k % 8, 0>>        \* 1/sqrt2 [[1, -e^-i d], [e^i d, 1]]
All1(u) == [i \in 1..NV |-> U1(u, i - 1)]
UnCat == Reverse(CatGates(root, edges))
ClosedForms == done = VS => \A k \in 0..7 :
   /\ LET f == Run(st, All1(Ph(k)) \o All1(uX) \o UnCat)
          bit(v) == IF v = 0 THEN 0 ELSE IF v = Pow2(root) THEN 1 ELSE -1 IN
      \A v \in 0..(Pow2(NV) - 1) : Near(ProbVal(f, v), IF bit(v) = -1 THEN 0 ELSE PMqc(bit(v), NV, k * 125000), 20)
   /\ LET g == Run(st, All1(U2pm(k))) IN \A v \in 0..(Pow2(NV) - 1) : Near(ProbVal(g, v), PPo(v, NV, k * 125000), 20)
Report == (edges = <<>> /\ root = 0) => Emit(ToJson([n |-> NV, cm |-> cm]))
=============================================================================
