--------------------------------- MODULE TPoly8 ---------------------------------
(* Every operation is logged with the coefficients of its operands and of its result.   *)
EXTENDS Poly8, TraceBase
VARIABLES cur
vars == <<l, cur>>
Init == l = 1 /\ cur = <<>>
Keep == UNCHANGED cur
(* terms are logged as <<variables, coefficient>>                                        *)
Full(ts, n) == /\ Len(ts) = Cardinality(Monomials(n))
               /\ {SetOf(ts[i][1]) : i \in 1..Len(ts)} = Monomials(n)
Read(ts, n) == TLCEval([S \in Monomials(n) |-> ts[CHOOSE i \in 1..Len(ts) : SetOf(ts[i][1]) = S][2]])
(* a printed polynomial: terms not shown are zero, no set of variables appears twice       *)
ReadText(ts) == IF Cardinality({SetOf(ts[i][1]) : i \in 1..Len(ts)}) # Len(ts) THEN Zero(Ev.n)
    ELSE [S \in Monomials(Ev.n) |-> LET I == {i \in 1..Len(ts) : SetOf(ts[i][1]) = S}
                                  IN IF I = {} THEN 0 ELSE ts[CHOOSE i \in I : TRUE][2]]
A == Read(Ev.a, Ev.n)
B == Read(Ev.b, Ev.n)
Idx == SetOf(Ev.idx)
(* which calls are accepted                                                                *)
Ok == CASE Ev.op \in {"set", "get", "mono"} -> WellFormed(Ev.idx, Ev.n) /\ Len(Ev.idx) <= 3
        [] Ev.op = "pj" -> \A i \in 1..Len(Ev.idx) : Ev.idx[i] \in 0..(Ev.n - 1)
        [] Ev.op \in {"add", "mul"} -> Ev.n = Ev.m
        [] Ev.op = "new" -> Ev.n >= 1
        [] Ev.op = "eval" -> Len(Ev.idx) = Ev.n
        [] Ev.op = "subst" -> Len(Ev.qs) = Ev.n /\ Ev.m = Ev.n
        [] OTHER -> TRUE
Want == CASE Ev.op = "set" -> [A EXCEPT ![Idx] = Ev.k % 8]
          [] Ev.op = "mono" -> TimesMono(A, Idx)
          [] Ev.op = "pj" -> ParityPoly(Ev.n, Idx)
          [] Ev.op = "add" -> Add8(A, B)
          [] Ev.op = "mul" -> Times(A, B)
          [] Ev.op = "scale" -> Scale(A, Ev.k)
          [] Ev.op = "subst" -> Subst(A, Ev.n, [i \in 1..Len(Ev.qs) |-> Read(Ev.qs[i], Ev.n)])
          [] Ev.op = "new" -> Zero(Ev.n)
          [] Ev.op = "fill" -> B
          [] OTHER -> A
Op == Keep /\ Judge(<<
   <<"ill_formed_calls_are_refused", (Ev.got = "ok") <=> Ok>>,
   <<"operands_unchanged", Ev.same>>,
   <<"result_of_" \o Ev.op, (Ev.got = "ok" /\ Ok) =>
       CASE Ev.op = "get" -> Ev.val = A[Idx]
         [] Ev.op = "eval" -> Ev.val = ValueAt(A, Ev.idx)
         [] Ev.op = "text" -> ReadText(Ev.out) = A
         [] Ev.op = "equal" -> (Ev.val = 1) <=> (Ev.n = Ev.m /\ A = B)
         [] OTHER -> Full(Ev.out, Ev.n) /\ Read(Ev.out, Ev.n) = Want>> >>)
(* a behaviour of the specification carried out step by step                               *)
StepTo(p, q) == LET n == Ev.n  i == Ev.i IN
   CASE Ev.op = "var" -> Var(n, i)
     [] Ev.op = "addvar" -> Add8(p, Var(n, i))
     [] Ev.op = "shiftmul" -> Times(Add8(p, One(n)), Var(n, i))
     [] Ev.op = "add" -> Add8(p, q)
     [] Ev.op = "mul" -> Times(p, q)
     [] Ev.op = "scale" -> Scale(p, i)
     [] OTHER -> Add8(p, ParityPoly(n, {j \in 0..(n - 1) : Bit(i, j) = 1}))
Step == LET p == IF cur = <<>> THEN One(Ev.n) ELSE cur[1]
            q == IF cur = <<>> THEN One(Ev.n) ELSE cur[2]
            r == StepTo(p, q) IN
        /\ cur' = <<r, IF cur = <<>> THEN One(Ev.n) ELSE p>>
        /\ Judge(<< <<"history_of_operations", Full(Ev.out, Ev.n) /\ Read(Ev.out, Ev.n) = r>>,
                    <<"values_at_all_points", Ev.vals = [x \in 1..Pow2(Ev.n) |-> ValueAt(r, BitsOf(x - 1, Ev.n))]>> >>)
Next == /\ Advance
        /\ CASE Ev.ev = "begin" -> cur' = <<>>
             [] Ev.ev = "op" -> Op
             [] Ev.ev = "step" -> Step
             [] OTHER -> Keep /\ Unexpected
Spec == Init /\ [][Next]_vars
=============================================================================
