------------------------------- MODULE MCTomoFit -------------------------------
(* (a) histories of add_data calls over two labels, with results split and circuits    *)
(*     repeated; (b) linear inversion of exact data returns the state.                  *)
EXTENDS TomoFit, Json
CONSTANTS MaxCalls, MaxWord
VARIABLES mode, word, hist, st
vars == <<mode, word, hist, st>>
L1 == [pl |-> <<>>, ml |-> <<"X">>]
L2 == [pl |-> <<>>, ml |-> <<"Z">>]
T(a, b) == << <<<<0, 1>>, a>>, <<<<1, 0>>, b>> >>
E1(a, b) == [pl |-> L1.pl, ml |-> L1.ml, tab |-> T(a, b)]
E2(a, b) == [pl |-> L2.pl, ml |-> L2.ml, tab |-> T(a, b)]
Results == {<<E1(1, 2)>>, <<E2(3, 0)>>, <<E1(2, 1), E2(0, 4)>>, <<E2(1, 1), E1(5, 0)>>}
Calls == {<<a>> : a \in Results} \cup {<<a, b>> : a, b \in Results}
Asked == {<<L1>>, <<L2>>, <<L1, L2>>, <<L2, L1>>}
Init == mode = "start" /\ word = <<>> /\ hist = <<>> /\ st = <<>>
Alphabet == {U1(uH, 0), U1(uS, 0), U1(uT, 1), U1(uH, 1), CXg(0, 1)}
Word(g) == mode \in {"start", "word"} /\ Len(word) < MaxWord /\ mode' = "word"
           /\ word' = Append(word, g) /\ UNCHANGED <<hist, st>>
Add(c, a) == /\ mode \in {"start", "add"} /\ Len(hist) < MaxCalls /\ mode' = "add"
             /\ \A i \in 1..Len(a) : Has(c, a[i])
             /\ hist' = Append(hist, [results |-> c, asked |-> a])
             /\ st' = AddCall(st, a, c) /\ UNCHANGED word
Next == (\E g \in Alphabet : Word(g)) \/ (\E c \in Calls, a \in Asked : Add(c, a))
Spec == Init /\ [][Next]_vars
(* the store holds each label once, with the sum of everything asked for                   *)
Got(L) == SumSeq([h \in 1..Len(hist) |->
   IF \E i \in 1..Len(hist[h].asked) : hist[h].asked[i] = L
   THEN SumSeq([r \in 1..Len(hist[h].results) |-> SumSeq([e \in 1..Len(hist[h].results[r]) |->
        IF hist[h].results[r][e].ml = L.ml THEN Total(hist[h].results[r][e].tab) ELSE 0])]) ELSE 0])
Tally == mode = "add" => \A L \in {L1, L2} : LET k == Lookup(st, L.pl, L.ml) IN
     IF k = 0 THEN Got(L) = 0 ELSE Total(st[k].tab) = Got(L)
OncePerLabel == \A i, j \in 1..Len(st) : st[i].ml = st[j].ml => i = j
BitsKept == \A i \in 1..Len(st) : \A b \in Keys(st[i].tab) : Len(b) = 1
(* exact data, 2 qubits (shots 10^6): inversion gives the state                               *)
Exact == LET S == [1..2 -> {"X", "Y", "Z"}] IN
   SetToSeq({[pl |-> <<>>, ml |-> m, tab |-> [v \in 1..4 |-> <<BitsOf(v - 1, 2),
        ProbVal(Run(Ket(2, 0), word \o Rots(m, <<0, 1>>)), v - 1)>>]] : m \in S})
Inverts == mode = "word" => LET X == LinInv(2, Exact)  R == RhoOf(2, word) IN
   /\ NearCMat(X, R, 60) /\ Hermitian(X, 8) /\ PSD(R, 600) /\ Near(CTrace(R), M, 20)
   /\ ClosestPSD(X, R, 2500) /\ NormalEq(2, Exact, R, FALSE, 1, 400)
Report == (mode = "add" /\ Len(hist) >= 1) => Emit(ToJson([hist |-> hist]))
=============================================================================
