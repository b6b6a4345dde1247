-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic for TLC: a rational is <<numerator, denominator>>
   in lowest terms with a positive denominator.  TLC integers are 32 bits wide
   and TLC stops on overflow, so a wrong value cannot come out silently. *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

R(n, d) == LET g == Gcd(Abs(n), Abs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN <<s * (n \div g), Abs(d) \div g>>
Q(n) == <<n, 1>>
RZero == <<0, 1>>
ROne  == <<1, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                  h == Gcd(Abs(b[1]), a[2])
              IN R((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
RInv(a) == R(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RScale(n, a) == RMul(Q(n), a)
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
RAbs(a) == <<Abs(a[1]), a[2]>>
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RMax(a, b) == IF RLt(a, b) THEN b ELSE a

RECURSIVE RSumSeq(_)
RSumSeq(q) == IF Len(q) = 0 THEN RZero ELSE RAdd(Head(q), RSumSeq(Tail(q)))

(* Sum of f(x) over a finite set *)
RSumSet(S, f(_)) == LET RECURSIVE Go(_)
                        Go(T) == IF T = {} THEN RZero
                                 ELSE LET x == CHOOSE y \in T : TRUE IN RAdd(f(x), Go(T \ {x}))
                    IN Go(S)
ISumSet(S, f(_)) == LET RECURSIVE Go(_)
                        Go(T) == IF T = {} THEN 0
                                 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + Go(T \ {x})
                    IN Go(S)

(* Vectors over the rationals: an energy is <<a, b>> = a * unit + b * muB*gauss *)
VZero == <<RZero, RZero>>
VAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>
VSub(u, v) == <<RSub(u[1], v[1]), RSub(u[2], v[2])>>
VNeg(u) == <<RNeg(u[1]), RNeg(u[2])>>
VScale(r, v) == <<RMul(r, v[1]), RMul(r, v[2])>>
VU(r) == <<r, RZero>>
=============================================================================
