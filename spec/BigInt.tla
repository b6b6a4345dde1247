------------------------------- MODULE BigInt -------------------------------
(* Natural numbers of any size: little-endian sequences of base-10000 limbs,
   without leading zeros (<<>> is zero).  Signed numbers are <<sg, mag>>. *)
EXTENDS Integers, Sequences

LOCAL Base == 10000

RECURSIVE BOfInt(_)
BOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BOfInt(n \div Base)

RECURSIVE BAddC(_, _, _)
BAddC(a, b, c) ==
    IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET x == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
         IN <<x % Base>> \o BAddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div Base)
BAdd(a, b) == BAddC(a, b, 0)

RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BLess(_, _)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
               ELSE IF a = <<>> THEN FALSE
               ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
               ELSE LET cut(s) == SubSeq(s, 1, Len(s) - 1)
                        RECURSIVE L(_, _)
                        L(x, y) == IF x = <<>> THEN FALSE
                                   ELSE IF x[Len(x)] # y[Len(y)] THEN x[Len(x)] < y[Len(y)]
                                   ELSE L(cut(x), cut(y))
                    IN L(cut(a), cut(b))

RECURSIVE BSubC(_, _, _)
BSubC(a, b, c) ==   \* a >= b
    IF a = <<>> THEN <<>>
    ELSE LET x == Head(a) - (IF b = <<>> THEN 0 ELSE Head(b)) - c
         IN <<x % Base>> \o BSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF x < 0 THEN 1 ELSE 0)
BSub(a, b) == BTrim(BSubC(a, b, 0))

RECURSIVE BScaleC(_, _, _)
BScaleC(a, k, c) ==
    IF a = <<>> THEN BOfInt(c)
    ELSE LET x == Head(a) * k + c IN <<x % Base>> \o BScaleC(Tail(a), k, x \div Base)
BScale(a, k) == IF k = 0 THEN <<>> ELSE BScaleC(a, k, 0)   \* 0 <= k < 100000

RECURSIVE BMul(_, _)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE LET rest == BMul(a, Tail(b))
                       low  == BScale(a, Head(b))
                   IN BAdd(low, IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPow(a, n - 1))

(* signed *)
ZZero == <<1, <<>>>>
ZOfInt(n) == IF n < 0 THEN <<-1, BOfInt(-n)>> ELSE <<1, BOfInt(n)>>
ZNeg(x) == IF x[2] = <<>> THEN x ELSE <<-x[1], x[2]>>
ZAdd(x, y) == IF x[1] = y[1] THEN <<x[1], BAdd(x[2], y[2])>>
              ELSE IF x[2] = y[2] THEN ZZero
              ELSE IF BLess(x[2], y[2]) THEN <<y[1], BSub(y[2], x[2])>>
              ELSE <<x[1], BSub(x[2], y[2])>>
ZMul(x, y) == IF x[2] = <<>> \/ y[2] = <<>> THEN ZZero ELSE <<x[1] * y[1], BMul(x[2], y[2])>>

RECURSIVE BToInt(_)
BToInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + Base * BToInt(Tail(a))   \* overflows loudly
ZToInt(x) == x[1] * BToInt(x[2])
=============================================================================
