------------------------------- MODULE MCDiscr -------------------------------
(* Histories: construct from one or several results, then add data                      *)
EXTENDS Discr, Json
CONSTANTS MaxOps
VARIABLES lab, rows, fitted, log
vars == <<lab, rows, fitted, log>>
P(k) == << <<k, 0>>, <<0, k>> >>
E(n, c, o, sh) == [name |-> n, lvl |-> 1, cal |-> c, own |-> o, shots |-> sh]
Pool == << <<E("cal_0", TRUE, <<0>>, <<P(1), P(2)>>), E("cal_1", TRUE, <<1>>, <<P(5), P(6)>>), E("exp", FALSE, <<7>>, <<P(3)>>)>>,
           <<E("cal_1", TRUE, <<1>>, <<P(7)>>), E("cal_2", TRUE, <<2>>, <<P(9)>>)>>,
           <<E("exp", FALSE, <<7>>, <<P(4)>>)>> >>
Sch == [none |-> <<>>, one |-> <<"cal_1">>, mix |-> <<"exp", "cal_1">>, ex |-> <<"exp">>]
SchedsOf(rs, sc) == IF sc = "none" THEN CalNames(rs) ELSE Sch[sc]
(* given states: a per-name relabelling; wrong: one state too few / many                  *)
Given(n, k) == <<(IF n = "exp" THEN 0 ELSE 1) + k>>
StatesOf(rs, ss, st, k) == CASE st = "own" -> [i \in 1..Len(ss) |-> IF Available(rs, <<ss[i]>>) THEN OwnState(rs, ss[i]) ELSE <<0>>]
                             [] st = "given" -> [i \in 1..Len(ss) |-> Given(ss[i], k)]
                             [] st = "wrong" -> [i \in 1..(Len(ss) + 1) |-> <<0>>]
Mask == <<1, 0>>
Init == lab = <<>> /\ rows = <<>> /\ fitted = <<>> /\ log = <<>>
Ctor(ri, isl, sc, st) ==
   LET rs == [i \in 1..Len(ri) |-> Pool[ri[i]]]  ss == SchedsOf(rs, sc)  sts == StatesOf(rs, ss, st, 0)  ok == Accepts(rs, ss, sts) IN
   /\ log = <<>> /\ ok
   /\ lab' = Assign(<<>>, ss, sts)
   /\ rows' = Rows(rs, ss, lab', Mask)
   /\ fitted' = rows'
   /\ log' = <<[op |-> "ctor", ri |-> ri, isl |-> isl, sc |-> sc, st |-> st, refit |-> TRUE]>>
Add(r, sc, st, refit) ==
   LET rs == <<Pool[r]>>  ss == SchedsOf(rs, sc)  sts == StatesOf(rs, ss, st, Len(log))  ok == Accepts(rs, ss, sts) IN
   /\ log # <<>>
   /\ log' = Append(log, [op |-> "add", ri |-> <<r>>, isl |-> FALSE, sc |-> sc, st |-> st, refit |-> refit])
   /\ lab' = IF ok THEN Assign(lab, ss, sts) ELSE lab
   /\ rows' = IF ok THEN rows \o Rows(rs, ss, lab', Mask) ELSE rows
   /\ fitted' = IF ok /\ refit THEN rows' ELSE fitted
Next == /\ Len(log) < MaxOps
        /\ \/ \E ri \in {<<1>>, <<2>>, <<3>>}, isl \in {TRUE, FALSE}, sc \in DOMAIN Sch, st \in {"own", "given", "wrong"} : Ctor(ri, isl, sc, st)
           \/ \E sc \in DOMAIN Sch, st \in {"own", "given", "wrong"} : Ctor(<<1, 2>>, TRUE, sc, st)
           \/ \E r \in 1..3, sc \in DOMAIN Sch, st \in {"given", "wrong"}, refit \in {TRUE, FALSE} : Add(r, sc, st, refit)
Spec == Init /\ [][Next]_vars
FittedIsPrefix == fitted = SubSeq(rows, 1, Len(fitted))
LabelsKnown == \A i \in 1..Len(rows) : Len(rows[i][2]) = 1 /\ Len(rows[i][1]) = 4
OnlyGrows == [][log # <<>> => SubSeq(rows', 1, Len(rows)) = rows]_vars
OwnPointNearest == \A i \in 1..Len(rows) : rows[i][2] \in Nearest(rows, rows[i][1])
(* counts over labels: distinct labels of one length keep distinct values in the inferred base *)
ValuesFaithful == \A a, b \in [1..2 -> 0..2] : LET bs == Base({a, b}) IN
      Value(a, bs) = Value(b, bs) => a = b
Report == Len(log) = MaxOps => Emit(ToJson([log |-> log]))
=============================================================================
