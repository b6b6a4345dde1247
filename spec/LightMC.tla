------------------------------ MODULE LightMC ------------------------------
(* A plane light wave along k with a complex polarisation re + i im (integers of any length: the wave
   has them normalised).  With N = |pol|^2, M = |k|^2 and the intensity I its fields are
     E = (pol / sqrt N) * E0,  B = (k / sqrt M) x (pol / sqrt N) * E0 / c,  E0^2 = 2 I / (epsilon_0 c). *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS KHi, PHi, Part      \* bounds of the components; the first component of k is Part - KHi
VARIABLES k, re, im
vars == <<k, re, im>>
Vec(a, b) == (a..b) \X (a..b) \X (a..b)
Zero3 == <<0, 0, 0>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Plus(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Times(x, a) == << x * a[1], x * a[2], x * a[3] >>
Far == 300
N == Dot(re, re) + Dot(im, im)
M == Dot(k, k)
Transverse == Dot(k, re) = 0 /\ Dot(k, im) = 0
Odd == (k[1] + 3 * k[2] + 5 * k[3] + 7 * re[1] + 11 * re[2] + 13 * re[3] + im[1] + 2 * im[2] + 4 * im[3]) % 23 = 0
Init == /\ k \in { v \in Vec(-KHi, KHi) : v[1] = Part - KHi } \ {Zero3}
        /\ re \in { Times(f, v) : f \in {1, Far}, v \in Vec(-PHi, PHi) }   \* with Far the imaginary part is a small one
        /\ im \in Vec(-PHi, PHi)
        /\ N > 0
        /\ Transverse \/ Odd
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

BRe == Cross(k, re)
BIm == Cross(k, im)
BB == Dot(BRe, BRe) + Dot(BIm, BIm)
(* the fields are orthogonal to each other and the magnetic one to k; in a transverse wave their energies are
   equal, and the flux, the real part of E x B*, points along k with the magnitude of the intensity *)
Theorems == /\ Dot(k, BRe) = 0 /\ Dot(k, BIm) = 0
            /\ Dot(re, BRe) = 0 /\ Dot(im, BIm) = 0 /\ Dot(re, BIm) + Dot(im, BRe) = 0
            /\ BB = M * N - Dot(k, re) * Dot(k, re) - Dot(k, im) * Dot(k, im)
            /\ Transverse => /\ BB = M * N
                             /\ Plus(Cross(re, BRe), Cross(im, BIm)) = Times(N, k)
Row == [ k |-> k, re |-> re, im |-> im, n |-> N, m |-> M, bre |-> BRe, bim |-> BIm, tv |-> Transverse ]
Printed == PrintT("@@" \o ToJson(Row))
=============================================================================
