------------------------------- MODULE Wigner -------------------------------
(* Exact Wigner 3j, 6j and 9j coefficients.  All arguments are DOUBLED
   (3 stands for 3/2).  A value is [s |-> signed big integer, e |-> exponents]
   and stands for  s * sqrt( Product of Primes[i]^e[i] ). *)
EXTENDS Integers, Sequences, Rat, BigInt, TLC

Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61>>
NP == Len(Primes)
PIdx == 1..NP

RECURSIVE Legendre(_, _)
Legendre(n, p) == IF n = 0 THEN 0 ELSE (n \div p) + Legendre(n \div p, p)
MaxFact == 62
FactExp == TLCEval([n \in 0..MaxFact |-> [i \in PIdx |-> Legendre(n, Primes[i])]])
RECURSIVE IntExp1(_, _)
IntExp1(n, p) == IF n % p = 0 THEN 1 + IntExp1(n \div p, p) ELSE 0
IntExp == TLCEval([n \in 1..MaxFact |-> [i \in PIdx |-> IntExp1(n, Primes[i])]])
PZero == [i \in PIdx |-> 0]
PAdd(x, y) == TLCEval([i \in PIdx |-> x[i] + y[i]])
PSub(x, y) == TLCEval([i \in PIdx |-> x[i] - y[i]])
PScale(k, x) == TLCEval([i \in PIdx |-> k * x[i]])

(* Pascal's triangle, in big integers *)
NextRow(r) == TLCEval([i \in 1..(Len(r) + 1) |->
                 IF i = 1 \/ i = Len(r) + 1 THEN <<1>> ELSE BAdd(r[i - 1], r[i])])
RECURSIVE Rows(_, _)
Rows(acc, n) == IF n = 0 THEN acc ELSE Rows(Append(acc, NextRow(acc[Len(acc)])), n - 1)
PascalSlot == 7   \* TLC register that memoises the triangle
ASSUME TLCSet(PascalSlot, TLCEval(Rows(<< <<<<1>>>> >>, MaxFact)))
Bin(n, k) == IF k < 0 \/ k > n \/ n < 0 THEN <<>> ELSE TLCGet(PascalSlot)[n + 1][k + 1]

Even(n) == n % 2 = 0
MinusOne(n) == IF Even(n) THEN 1 ELSE -1

(* doubled arguments a, b, c can be coupled: triangle inequality and integer perimeter *)
Tri(a, b, c) == /\ a >= 0 /\ b >= 0 /\ c >= 0
                /\ a + b >= c /\ b + c >= a /\ c + a >= b /\ Even(a + b + c)
(* triangle coefficient (x+y-z)!(x-y+z)!(-x+y+z)!/(x+y+z+1)! *)
TriExp(x, y, z) == PSub(PAdd(PAdd(FactExp[(x + y - z) \div 2], FactExp[(x - y + z) \div 2]),
                             FactExp[(-x + y + z) \div 2]),
                        FactExp[(x + y + z) \div 2 + 1])

ZSumRange(lo, hi, f(_)) == LET RECURSIVE Go(_)
                               Go(k) == IF k > hi THEN ZZero ELSE ZAdd(f(k), Go(k + 1))
                           IN Go(lo)

WZero == [s |-> ZZero, e |-> PZero]
IsZero(w) == w.s[2] = <<>>

W3OK(j1, j2, j3, m1, m2, m3) ==
    /\ Tri(j1, j2, j3) /\ m1 + m2 + m3 = 0
    /\ Abs(m1) <= j1 /\ Abs(m2) <= j2 /\ Abs(m3) <= j3
    /\ Even(j1 + m1) /\ Even(j2 + m2) /\ Even(j3 + m3)

W3(j1, j2, j3, m1, m2, m3) ==
    IF ~W3OK(j1, j2, j3, m1, m2, m3) THEN WZero
    ELSE LET a == (j1 + j2 - j3) \div 2
             b == (j1 - j2 + j3) \div 2
             c == (-j1 + j2 + j3) \div 2
             p == (j1 - m1) \div 2
             q == (j2 + m2) \div 2
             term(k) == <<MinusOne(k), BMul(BMul(Bin(a, k), Bin(b, p - k)), Bin(c, q - k))>>
             S == ZSumRange(0, a, LAMBDA k : IF term(k)[2] = <<>> THEN ZZero ELSE term(k))
             num == PAdd(PAdd(PAdd(FactExp[(j1 + m1) \div 2], FactExp[(j1 - m1) \div 2]),
                              PAdd(FactExp[(j2 + m2) \div 2], FactExp[(j2 - m2) \div 2])),
                         PAdd(FactExp[(j3 + m3) \div 2], FactExp[(j3 - m3) \div 2]))
             den == PAdd(PAdd(FactExp[(j1 + j2 + j3) \div 2 + 1], FactExp[a]), PAdd(FactExp[b], FactExp[c]))
         IN [s |-> <<MinusOne((j1 - j2 - m3) \div 2) * S[1], S[2]>>, e |-> PSub(num, den)]

W6OK(a, b, c, d, e, f) == Tri(a, b, c) /\ Tri(a, e, f) /\ Tri(d, b, f) /\ Tri(d, e, c)

(* the integer sum of binomials in the 6j coefficient *)
S6(a, b, c, d, e, f) ==
    LET h(x) == x \div 2
        abc == h(a + b + c)
        hi == Min2(h(a + b + d + e), Min2(h(a + c + d + f), h(b + c + e + f)))
        term(k) == BMul(BMul(Bin(k + 1, k - abc), Bin(h(a + b - c), k - h(c + d + e))),
                        BMul(Bin(h(a - b + c), k - h(b + d + f)), Bin(h(b + c - a), k - h(a + e + f))))
    IN ZSumRange(abc, hi, LAMBDA k : IF term(k) = <<>> THEN ZZero ELSE <<MinusOne(k), term(k)>>)
W6(a, b, c, d, e, f) ==
    IF ~W6OK(a, b, c, d, e, f) THEN WZero
    ELSE [s |-> S6(a, b, c, d, e, f),
          e |-> PSub(PAdd(PAdd(TriExp(a, e, f), TriExp(c, d, e)), TriExp(b, d, f)), TriExp(a, b, c))]

W9OK(a, b, c, d, e, f, g, h, i) ==
    /\ Tri(a, b, c) /\ Tri(d, e, f) /\ Tri(g, h, i)
    /\ Tri(a, d, g) /\ Tri(b, e, h) /\ Tri(c, f, i)

W9(a, b, c, d, e, f, g, h, i) ==
    IF ~W9OK(a, b, c, d, e, f, g, h, i) THEN WZero
    ELSE LET xs == { x \in 0..Min2(a + i, Min2(b + f, d + h)) :
                        /\ W6OK(a, b, c, f, i, x) /\ W6OK(d, e, f, b, x, h) /\ W6OK(g, h, i, x, a, d) }
             ex(x) == PAdd(PAdd(TriExp(a, i, x), TriExp(b, f, x)), TriExp(d, h, x))
             low == TLCEval([p \in PIdx |-> IF xs = {} THEN 0 ELSE
                        LET es == {ex(x)[p] : x \in xs} IN CHOOSE v \in es : \A w \in es : v <= w])
             RECURSIVE PowProd(_, _)
             PowProd(v, p) == IF p > NP THEN <<1>>
                              ELSE BMul(BPow(<<Primes[p]>>, v[p]), PowProd(v, p + 1))
             term(x) == LET S == ZMul(ZMul(S6(a, b, c, f, i, x), S6(d, e, f, b, x, h)), S6(g, h, i, x, a, d))
                            m == BScale(BMul(S[2], PowProd(PSub(ex(x), low), 1)), x + 1)
                        IN IF m = <<>> THEN ZZero ELSE <<MinusOne(x) * S[1], m>>
             RECURSIVE SumX(_)
             SumX(T) == IF T = {} THEN ZZero
                        ELSE LET x == CHOOSE y \in T : TRUE IN ZAdd(term(x), SumX(T \ {x}))
             num == PAdd(PAdd(TriExp(f, i, c), TriExp(b, e, h)), TriExp(g, a, d))
             den == PAdd(PAdd(TriExp(a, b, c), TriExp(d, e, f)), TriExp(g, h, i))
             S == SumX(xs)
         IN IF S[2] = <<>> THEN WZero ELSE [s |-> S, e |-> PAdd(PSub(num, den), PScale(2, low))]

(* multiply the square by a positive integer n (n <= MaxFact) *)
TimesSqrt(w, n) == [s |-> w.s, e |-> PAdd(w.e, IntExp[n])]
WMul(v, w) == IF IsZero(v) \/ IsZero(w) THEN WZero ELSE [s |-> ZMul(v.s, w.s), e |-> PAdd(v.e, w.e)]

(* The square of a value as a rational in lowest terms, when it fits 32 bits *)
RECURSIVE Strip(_, _)      \* remove factors p from n: <<n', how many>>
Strip(n, p) == IF n % p = 0 THEN LET r == Strip(n \div p, p) IN <<r[1], r[2] + 1>> ELSE <<n, 0>>
RECURSIVE SqRat1(_, _, _, _, _)
SqRat1(n, e, i, num, den) ==
    IF i > NP THEN R(num * n * n, den)
    ELSE LET st == Strip(n, Primes[i])
             x == e[i] + 2 * st[2]
         IN SqRat1(st[1], e, i + 1,
                   IF x > 0 THEN num * Primes[i] ^ x ELSE num,
                   IF x < 0 THEN den * Primes[i] ^ (-x) ELSE den)
SqRat(w) == IF IsZero(w) THEN RZero ELSE SqRat1(BToInt(w.s[2]), w.e, 1, 1, 1)

(* JSON form: sign, limbs and exponents with trailing zeros dropped *)
RECURSIVE TrimE(_)
TrimE(e) == IF e # <<>> /\ e[Len(e)] = 0 THEN TrimE(SubSeq(e, 1, Len(e) - 1)) ELSE e
WJson(w) == [g |-> w.s[1], s |-> w.s[2], e |-> TrimE(w.e)]
=============================================================================
