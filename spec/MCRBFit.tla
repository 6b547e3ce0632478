------------------------------- MODULE MCRBFit -------------------------------
(* Histories of additions: any subset of circuits may arrive in any order, several    *)
(* times, with or without an immediate refit.  Laws: fractions accumulate (they lie     *)
(* between those of the pieces and do not depend on the order), other circuits' data    *)
(* do not matter.                                                                       *)
EXTENDS RBFit, Json
CONSTANTS MaxAdds
VARIABLES store, log
vars == <<store, log>>
Pats == << <<0>>, <<1, 2>> >>
B(x) == BitsOf(x, 3)
Tabs == << << <<B(0), 3>>, <<B(1), 1>> >>, << <<B(0), 1>>, <<B(6), 2>>, <<B(1), 2>> >>, << <<B(4), 4>> >> >>
Rec(s, li, t) == [v |-> "a", seed |-> s, li |-> li, counts |-> Tabs[t]]
Chunks == {<<Rec(1, 0, 1), Rec(1, 1, 2)>>, <<Rec(0, 0, 3)>>, <<Rec(0, 0, 1), Rec(0, 1, 2), Rec(1, 1, 3)>>,
           <<Rec(0, 1, 1), Rec(0, 0, 2)>>}
Init == store = <<>> /\ log = <<>>
Add == Len(log) < MaxAdds /\ \E c \in Chunks, d \in BOOLEAN :
         store' = store \o c /\ log' = Append(log, [recs |-> c, refit |-> d])
Next == Add
Spec == Init /\ [][Next]_vars
Complete == \A s \in 0..1, li \in 0..1 : Recs(store, "a", s, li) # <<>>
Ps == 1..2
Cells == {x \in (0..1) \X (0..1) : Recs(store, "a", x[1], x[2]) # <<>>}
Bounded == \A p \in Ps, x \in Cells : LET q == RawP(store, "a", Pats, p, x[1], x[2]) IN q >= 0 /\ q <= M
Between == \A p \in Ps, x \in Cells :
    LET rs == Recs(store, "a", x[1], x[2])
        each == {Micro(Zeros(<<rs[i]>>, Start(Pats, p), Len(Pats[p])), Shots(<<rs[i]>>)) : i \in 1..Len(rs)}
        q == RawP(store, "a", Pats, p, x[1], x[2])
    IN  Min(each) - 1 <= q /\ q <= Max(each) + 1
OrderFree == \A p \in Ps, x \in Cells :
    RawP(store, "a", Pats, p, x[1], x[2]) = RawP(Reverse(store), "a", Pats, p, x[1], x[2])
Stats == (store # <<>> /\ Complete) => \A p \in Ps : LET t == RawTab(store, "a", Pats, p, 2) IN
    \A k \in 1..2 : VarOf(t, k) >= 0 /\ VarOf(t, k) <= M \div 4 + 2
SeedsLaw == LET ss == SeedsOf(store) IN /\ \A i, j \in 1..Len(ss) : i # j => ss[i] # ss[j]
            /\ {ss[i] : i \in 1..Len(ss)} = {store[i].seed : i \in 1..Len(store)}
FormulaLaws == \A k \in 1..3, al \in {500000, 900000, 990000, M} :
    /\ Epc(k, al) >= 0 /\ Epc(k, M) = 0
    /\ Near(Interleaved(k, al, al), 0, 1)
    /\ Near(Interleaved(k, M, al), Epc(k, al), 2)
    /\ Near(DihAlpha(k, al, al), al, 1)
Report == (Len(log) = MaxAdds /\ Complete /\ Last(log).refit) => Emit(ToJson([log |-> log]))
=============================================================================
