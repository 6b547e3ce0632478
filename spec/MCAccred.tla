-------------------------------- MODULE MCAccred --------------------------------
(* The padding of every two-qubit circuit of up to Depth layers and every trap: the   *)
(* padded register always is the Pauli-shifted original one, the classical correction *)
(* undoes the last Paulis, and every trap returns to all zeros.                        *)
EXTENDS Accred, Json
CONSTANTS Depth, Kinds
VARIABLES kind, role, word, orig, pad, x, z, undo, done
vars == <<kind, role, word, orig, pad, x, z, undo, done>>
N == 2
Names == <<"i", "h", "t">>
UOf(i) == CASE i = 1 -> uI [] i = 2 -> uH [] OTHER -> uT
Dirs == {<<0, 1>>, <<1, 0>>}
Zs == <<0, 0>>
Init == /\ kind \in Kinds /\ role \in {"target", "trap", "xtrap"}
        /\ word = <<>> /\ x = Zs /\ z = Zs /\ done = FALSE
        /\ orig = Ket(N, 0) /\ pad = Ket(N, 0)
        /\ undo = IF role = "xtrap" THEN <<U1(uH, 0), U1(uH, 1)>> ELSE <<>>
(* one-qubit layer: for targets any, for traps what Routine 2 prescribes                *)
One(a, b) == <<U1(UOf(a), 0), U1(UOf(b), 1)>>
Step(layer, d, x2, z2, und) ==
    LET o == Run(orig, layer)
        p == Run(Run(pad, PauliGates(x, z)), layer)    \* earlier Paulis removed first
        tw == <<TwoG(kind, d)>>
    IN  /\ orig' = Run(o, tw)
        /\ pad' = Run(Run(p, PauliGates(x2, z2)), tw)
        /\ x' = PropX(kind, x2, z2, d[1] + 1, d[2] + 1)
        /\ z' = PropZ(kind, x2, z2, d[1] + 1, d[2] + 1)
        /\ undo' = und
Layer == /\ ~done /\ Len(word) < Depth
         /\ \E d \in Dirs, x2 \in Bits(N), z2 \in Bits(N) :
             \/ /\ role = "target"
                /\ \E a \in 1..3, b \in 1..3 :
                     /\ Step(One(a, b), d, x2, z2, <<>>)
                     /\ word' = Append(word, [u |-> <<Names[a], Names[b]>>, d |-> d])
             \/ /\ role # "target"
                /\ \E ch \in {0, 1} :
                     LET tp == TrapPair(kind, ch, d[1], d[2]) IN
                     /\ Step(undo \o tp[1], d, x2, z2, tp[2])
                     /\ word' = Append(word, [u |-> <<ch, 0>>, d |-> d])
         /\ UNCHANGED <<kind, role, done>>
Finish == /\ ~done /\ done' = TRUE
          /\ \E x2 \in Bits(N), z2 \in Bits(N), a \in 1..3 :
              LET last == IF role = "target" THEN One(a, 3) ELSE undo \o
                             (IF role = "xtrap" THEN <<U1(uH, 0), U1(uH, 1)>> ELSE <<>>) IN
              /\ role # "target" => a = 1
              /\ orig' = Run(orig, last)
              /\ pad' = Run(Run(Run(pad, PauliGates(x, z)), last), PauliGates(x2, z2))
              /\ x' = x2 /\ z' = z2
              /\ word' = IF role = "target" THEN Append(word, [u |-> <<Names[a], "t">>, d |-> <<>>]) ELSE word
          /\ undo' = <<>> /\ UNCHANGED <<kind, role>>
Next == Layer \/ Finish
Spec == Init /\ [][Next]_vars
PadIsShiftedOriginal == SameRay(pad, Run(orig, PauliGates(x, z)))
TrapsReturnToZero == done /\ role # "target" => IsKet(orig, 0)
(* the raw outcome of a trap shifted by its string is all zeros                            *)
TrapStringReveals == done /\ role # "target" => IsKet(pad, x[1] + 2 * x[2])
Report == done /\ role = "target" /\ x = Zs /\ z = Zs => Emit(ToJson([kind |-> kind, word |-> word]))
View == <<kind, role, word, orig, pad, x, z, undo, done>>
=============================================================================
