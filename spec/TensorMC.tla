------------------------------ MODULE TensorMC ------------------------------
(* Strengths of single Zeeman components for tensor rank and projection, and
   the weights a polarisation gives to the projections.  One state per group. *)
EXTENDS Quantum, Json
CONSTANTS Is, Js, MaxF
VARIABLES k
Init == k \in { x \in [i : Is, j0 : Js, j1 : Js, r : {1, 2}] : (x.j0 + x.j1) % 2 = 0 }
Next == UNCHANGED k
Spec == Init /\ [][Next]_k

(* strength of  f0 m0 - f1 m1 : the square of this *)
T(i, r, q, j0, f0, m0, j1, f1, m1) ==
    LET w == WMul(W6(j0, j1, 2 * r, f1, f0, i), W3(f1, 2 * r, f0, -m1, q, m0))
    IN IF IsZero(w) THEN WZero ELSE TimesSqrt(TimesSqrt(w, f0 + 1), f1 + 1)
Qs(r) == { 2 * n : n \in (-r)..r }
Few(S) == { f \in S : f <= MaxF }
Row == [ i |-> k.i, j0 |-> k.j0, j1 |-> k.j1, r |-> k.r,
         t |-> UNION { { [ f0 |-> f0, f1 |-> f1, m0 |-> m0, q |-> q, m1 |-> m0 + q, w |-> WJson(T(k.i, k.r, q, k.j0, f0, m0, k.j1, f1, m0 + q)) ]
                         : m0 \in Ms(f0), q \in Qs(k.r) } : f0 \in Few(Fs(k.i, k.j0)), f1 \in Few(Fs(k.i, k.j1)) } ]
Printed == PrintT("@@" \o ToJson(Row))
(* from every upper state the same total *)
Total(f1, m1) == RSumSet(Fs(k.i, k.j0), LAMBDA f0 : RSumSet(Qs(k.r), LAMBDA q :
                    SqRat(T(k.i, k.r, q, k.j0, f0, m1 - q, k.j1, f1, m1))))
Theorems == (k.i <= 3 /\ k.j0 <= 4 /\ k.j1 <= 4 /\ Tri(k.j0, k.j1, 2 * k.r)) =>
    \A f1 \in Fs(k.i, k.j1) : \A m1 \in Ms(f1) : Total(f1, m1) = R(1, k.j1 + 1)
=============================================================================
