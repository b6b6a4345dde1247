------------------------------ MODULE WignerMC ------------------------------
(* Wigner coefficients on a box of (doubled) arguments, allowed or not, and at
   random further out.  Each state is one group of arguments. *)
EXTENDS Wigner, Json, FiniteSets
CONSTANTS Kind,       \* "3j", "6j" or "9j"
          Max,        \* arguments go up to this
          Random,     \* TRUE: random arguments instead of all
          Part, Parts \* only the groups whose first arguments sum to Part modulo Parts
VARIABLES g
Rng == 0..Max
Groups == IF Kind = "3j" THEN Rng \X Rng \X Rng
          ELSE IF Kind = "6j" THEN Rng \X Rng \X Rng ELSE Rng \X Rng \X Rng \X Rng
Mine(x) == (x[1] + 2 * x[2] + 5 * x[3]) % Parts = Part
Sides(a, b) == { c \in Rng : c >= Abs(a - b) /\ c <= a + b /\ Even(a + b + c) }
Pick(S) == {RandomElement(S)}
(* arguments that are likely to be allowed *)
RandomArgs ==
    CASE Kind = "3j" -> \E a \in Pick(Rng), b \in Pick(Rng) : \E c \in Pick(IF Sides(a, b) = {} THEN Rng ELSE Sides(a, b)) :
            g' = <<a, b, c>>
      [] Kind = "6j" -> \E a \in Pick(Rng), b \in Pick(Rng), d \in Pick(Rng) : \E c \in Pick(IF Sides(a, b) = {} THEN Rng ELSE Sides(a, b)) :
            \E e \in Pick(IF Sides(d, c) = {} THEN Rng ELSE Sides(d, c)) :
            \E f \in Pick(IF Sides(a, e) \cap Sides(d, b) = {} THEN Rng ELSE Sides(a, e) \cap Sides(d, b)) : g' = <<a, b, c, d, e, f>>
      [] OTHER -> \E a \in Pick(Rng), b \in Pick(Rng), d \in Pick(Rng), e \in Pick(Rng) :
            \E c \in Pick(IF Sides(a, b) = {} THEN Rng ELSE Sides(a, b)), f \in Pick(IF Sides(d, e) = {} THEN Rng ELSE Sides(d, e)),
               h \in Pick(IF Sides(a, d) = {} THEN Rng ELSE Sides(a, d)), k \in Pick(IF Sides(b, e) = {} THEN Rng ELSE Sides(b, e)) :
            \E l \in Pick(IF Sides(h, k) \cap Sides(c, f) = {} THEN Rng ELSE Sides(h, k) \cap Sides(c, f)) :
               g' = <<a, b, c, d, e, f, h, k, l>>
Init == IF Random THEN g = <<>> ELSE g \in { x \in Groups : Mine(x) }
Next == IF Random THEN RandomArgs ELSE UNCHANGED g
Spec == Init /\ [][Next]_g

V3(a, b, c, x, y, z) == [ a |-> <<a, b, c, x, y, z>>, w |-> WJson(W3(a, b, c, x, y, z)) ]
(* the three projections: all that add up to zero, and some that do not *)
Ms3(a) == (-a - 1)..(a + 1)
Rows3(a, b, c) ==
    { V3(a, b, c, x, y, -x - y) : x \in Ms3(a), y \in Ms3(b) }
    \cup { V3(a, b, c, x, y, d - x - y) : x \in {-a, a, 0}, y \in {b, 0}, d \in {1, -1, 2} }
V6(q) == [ a |-> q, w |-> WJson(W6(q[1], q[2], q[3], q[4], q[5], q[6])) ]
V9(q) == [ a |-> q, w |-> WJson(W9(q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9])) ]
Row == IF Kind = "3j" THEN Rows3(g[1], g[2], g[3])
       ELSE IF Kind = "6j" THEN (IF Random THEN {V6(g)} ELSE { V6(g \o q) : q \in Rng \X Rng \X Rng })
       ELSE IF Random THEN {V9(g)} ELSE { V9(g \o q) : q \in Rng \X Rng \X Rng \X Rng \X Rng }
Printed == g # <<>> => PrintT("@@" \o ToJson(Row))

(* theorems of the definitions *)
SameW(v, w) == (v.e = w.e /\ v.s = w.s) \/ (IsZero(v) /\ IsZero(w))
Signed(w, n) == IF n % 2 = 0 THEN w ELSE [w EXCEPT !.s = ZNeg(@)]
Sym3(a, b, c) == \A x \in Ms3(a), y \in Ms3(b) :
    LET z == -x - y v == W3(a, b, c, x, y, z) J == (a + b + c) \div 2 IN
    Tri(a, b, c) =>
    /\ SameW(v, W3(b, c, a, y, z, x))
    /\ SameW(v, Signed(W3(b, a, c, y, x, z), J))
    /\ SameW(v, Signed(W3(a, b, c, -x, -y, -z), J))
Orth3(a, b, c) == Tri(a, b, c) =>
    \A z \in { n \in (-c)..c : Even(n + c) } :
       RSumSet({ x \in (-a)..a : Even(a + x) }, LAMBDA x : SqRat(W3(a, b, c, x, -z - x, z))) = R(1, c + 1)
Sym6(q) == LET w == W6(q[1], q[2], q[3], q[4], q[5], q[6]) IN
    /\ SameW(w, W6(q[2], q[1], q[3], q[5], q[4], q[6])) /\ SameW(w, W6(q[1], q[3], q[2], q[4], q[6], q[5]))
    /\ SameW(w, W6(q[4], q[5], q[3], q[1], q[2], q[6]))
Theorems ==
    g # <<>> /\ Max <= 8 =>
    CASE Kind = "3j" -> Sym3(g[1], g[2], g[3]) /\ (Max <= 6 => Orth3(g[1], g[2], g[3]))
      [] Kind = "6j" -> IF Random THEN Sym6(g) ELSE TRUE
      [] OTHER -> TRUE
=============================================================================
