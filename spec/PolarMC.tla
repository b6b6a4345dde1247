------------------------------ MODULE PolarMC ------------------------------
(* What a real polarisation e (and for E2 a propagation direction k orthogonal
   to it), of any length, contributes to each projection q of the tensor. *)
EXTENDS Rat, Json, TLC
CONSTANTS Lo, Hi      \* components run from -Lo to Hi
VARIABLES e, k
vars == <<e, k>>
Comp == (-Lo)..Hi
Vec == Comp \X Comp \X Comp
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Zero3 == <<0, 0, 0>>
Init == e \in Vec \ {Zero3} /\ k \in { v \in Vec : Dot(e, v) = 0 }
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* k = 0: only the dipole weights are meant *)
DipoleW(q) == IF q = 0 THEN R(e[3] * e[3], Dot(e, e)) ELSE R(e[1] * e[1] + e[2] * e[2], 2 * Dot(e, e))
N2 == Dot(e, e) * Dot(k, k)
QuadW(q) ==
    LET z == 2 * k[3] * e[3] - k[1] * e[1] - k[2] * e[2]
        a == e[3] * k[1] + e[1] * k[3]
        b == e[3] * k[2] + e[2] * k[3]
    IN CASE Abs(q) = 2 -> R((e[1] * e[1] + e[2] * e[2]) * (k[1] * k[1] + k[2] * k[2]), N2)
         [] Abs(q) = 1 -> R(a * a + b * b, N2)
         [] OTHER -> R(2 * z * z, 3 * N2)
Row == [ e |-> e, k |-> k, d |-> << DipoleW(-1), DipoleW(0), DipoleW(1) >>,
         w |-> IF k = Zero3 THEN <<>> ELSE << QuadW(-2), QuadW(-1), QuadW(0), QuadW(1), QuadW(2) >> ]
Printed == PrintT("@@" \o ToJson(Row))
Theorems == /\ RAdd(RAdd(DipoleW(-1), DipoleW(0)), DipoleW(1)) = ROne
            /\ k # Zero3 => RSumSeq(<<QuadW(-2), QuadW(-1), QuadW(0), QuadW(1), QuadW(2)>>) = Q(2)
=============================================================================
