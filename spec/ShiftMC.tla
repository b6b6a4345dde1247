------------------------------ MODULE ShiftMC ------------------------------
(* Every pair of a nuclear spin and a J (doubled): the sublevels, the weights of
   the hyperfine constants and of the field in their shifts, and the theorems
   the definitions obey.  One state per pair. *)
EXTENDS Quantum, Json
CONSTANTS MinI, MaxI, MaxJ
VARIABLES i, j
vars == <<i, j>>

Init == i = MinI /\ j = 0
Next == \/ j < MaxJ /\ j' = j + 1 /\ i' = i
        \/ j = 0 /\ i < MaxI /\ i' = i + 1 /\ j' = 0
Spec == Init /\ [][Next]_vars

Sub(f) == [ f |-> f, ft |-> FracText(f), d |-> DipoleK(i, j, f), q |-> QuadK(i, j, f), o |-> OctK(i, j, f),
            g |-> GFactor(i, j, f), m |-> Ascend(Ms(f)), mt |-> [ n \in 1..(f + 1) |-> FracText(Ascend(Ms(f))[n]) ] ]
Row == [ i |-> i, j |-> j, it |-> FracText(i), jt |-> FracText(j),
         f |-> [ n \in 1..Cardinality(Fs(i, j)) |-> Sub(Ascend(Fs(i, j))[n]) ] ]
Printed == PrintT("@@" \o ToJson(Row))
Theorems == /\ StretchedOK(i, j) /\ BarycentreOK(i, j) /\ ZeemanSumOK(i, j) /\ DegeneracyOK(i, j)
            /\ \A f \in Fs(i, j) : Cardinality(Ms(f)) = f + 1 /\ Tri(i, j, f)
            /\ i < 2 \/ j < 2 => \A f \in Fs(i, j) : QuadK(i, j, f) = RZero
            /\ i < 3 \/ j < 3 => \A f \in Fs(i, j) : OctK(i, j, f) = RZero
=============================================================================
