------------------------------ MODULE Quantum ------------------------------
(* Quantum numbers, level shifts, selection rules and line strengths.
   Every angular momentum is DOUBLED: i, j, f, m stand for I, J, F, mF times 2. *)
EXTENDS Wigner, FiniteSets

FracText(n) == IF Even(n) THEN ToString(n \div 2) ELSE ToString(n) \o "/2"

Triple(a, b) == { c \in Abs(a - b)..(a + b) : Even(a + b + c) }
Fs(i, j) == Triple(i, j)
Ms(f) == { m \in (-f)..f : Even(f + m) }

(* sorted ascending *)
RECURSIVE Ascend(_)
Ascend(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Ascend(S \ {x})

---------------------------------------------------------------------------
(* Hyperfine shift: A * DipoleK + B * QuadK + C * OctK *)
K4(i, j, f) == f * (f + 2) - j * (j + 2) - i * (i + 2)
DipoleK(i, j, f) == R(K4(i, j, f), 8)
QuadK(i, j, f) ==
    IF i < 2 \/ j < 2 THEN RZero
    ELSE LET k == K4(i, j, f)
         IN R(3 * k * k + 12 * k - 4 * i * (i + 2) * j * (j + 2), 32 * i * (i - 1) * j * (j - 1))
OctK(i, j, f) ==
    IF i < 3 \/ j < 3 THEN RZero
    ELSE LET k == K4(i, j, f)
             q == i * (i + 2) * j * (j + 2)
             n == 10 * k * k * k + 160 * k * k
                  + k * (32 * (i * (i + 2) + j * (j + 2)) - 24 * q + 384) - 160 * q
         IN R(n, 32 * i * (i - 1) * (i - 2) * j * (j - 1) * (j - 2))
HfShift(i, j, f, hf) == RAdd(RAdd(RMul(hf[1], DipoleK(i, j, f)), RMul(hf[2], QuadK(i, j, f))),
                             RMul(hf[3], OctK(i, j, f)))

(* gF / gJ, and the linear Zeeman shift in units of muB * gauss *)
GFactor(i, j, f) == IF f = 0 THEN RZero
                    ELSE R(f * (f + 2) + j * (j + 2) - i * (i + 2), 2 * f * (f + 2))
ZShift(i, j, f, m, g, b) == RMul(RMul(g, GFactor(i, j, f)), R(m * b, 2))

---------------------------------------------------------------------------
(* Selection rules.  Types are <<E1, M1, E2>>. *)
FineTypes(j1, p1, j2, p2, same) ==
    << Abs(j1 - j2) <= 2 /\ p1 # p2,
       Abs(j1 - j2) <= 2 /\ p1 = p2,
       Abs(j1 - j2) <= 4 /\ p1 = p2 /\ ~same >>
AnyType(t) == t[1] \/ t[2] \/ t[3]
OnlyE2(t) == t[3] /\ ~t[1] /\ ~t[2]
Reach(t) == IF OnlyE2(t) THEN 4 ELSE 2          \* doubled |dF| or |dm|
Rank(t) == IF t[1] \/ t[2] THEN 2 ELSE 4        \* doubled tensor rank

(* hyperfine component f1 - f2 of a transition j1 - j2 with types t *)
HfTypes(i, j1, j2, t, f1, f2) ==
    LET r1 == ~IsZero(W6(j1, j2, 2, f2, f1, i))
        r2 == ~IsZero(W6(j1, j2, 4, f2, f1, i))
    IN << t[1] /\ r1, t[2] /\ r1, t[3] /\ r2 >>
HfAllowed(i, j1, j2, t, f1, f2) ==
    AnyType(t) /\ Abs(f1 - f2) <= Reach(t) /\ AnyType(HfTypes(i, j1, j2, t, f1, f2))
(* Zeeman component m1 - m2 of a hyperfine component f1 - f2 with types t *)
ZTypes(f1, f2, t, m1, m2) ==
    LET r1 == Abs(m1 - m2) <= 2 /\ ~IsZero(W3(f2, 2, f1, -m2, m2 - m1, m1))
        r2 == Abs(m1 - m2) <= 4 /\ ~IsZero(W3(f2, 4, f1, -m2, m2 - m1, m1))
    IN << t[1] /\ r1, t[2] /\ r1, t[3] /\ r2 >>
ZAllowed(f1, f2, t, m1, m2) ==
    AnyType(t) /\ Abs(m1 - m2) <= Reach(t) /\ AnyType(ZTypes(f1, f2, t, m1, m2))

(* Strengths relative to the parent, as exact squares *)
HfStrengthW(i, j1, j2, t, f1, f2) ==
    LET w == W6(j2, f2, i, f1, j1, Rank(t))
    IN IF IsZero(w) THEN WZero ELSE TimesSqrt(TimesSqrt(w, f1 + 1), f2 + 1)
ZStrengthW(f1, f2, t, m1, m2) == W3(f1, Rank(t), f2, -m1, m1 - m2, m2)
HfStrength(i, j1, j2, t, f1, f2) == SqRat(HfStrengthW(i, j1, j2, t, f1, f2))
ZStrength(f1, f2, t, m1, m2) == SqRat(ZStrengthW(f1, f2, t, m1, m2))

(* Components between two levels: ordered pairs, or unordered within one level *)
HfPairs(i, j1, j2, t, same) ==
    { p \in Fs(i, j1) \X Fs(i, j2) : (same => p[1] <= p[2]) /\ HfAllowed(i, j1, j2, t, p[1], p[2]) }
ZPairs(f1, f2, t, same) ==
    { p \in Ms(f1) \X Ms(f2) : (same => p[1] <= p[2]) /\ ZAllowed(f1, f2, t, p[1], p[2]) }

---------------------------------------------------------------------------
(* Theorems about these definitions, evaluated by TLC (see QuantumCheck.tla) *)
StretchedOK(i, j) ==
    /\ DipoleK(i, j, i + j) = R(i * j, 4)
    /\ (i >= 2 /\ j >= 2 => QuadK(i, j, i + j) = R(1, 4))
    /\ (i >= 3 /\ j >= 3 => OctK(i, j, i + j) = ROne)
BarycentreOK(i, j) ==
    \A K \in {1, 2, 3} :
        RSumSet(Fs(i, j), LAMBDA f : RScale(f + 1,
            IF K = 1 THEN DipoleK(i, j, f) ELSE IF K = 2 THEN QuadK(i, j, f) ELSE OctK(i, j, f))) = RZero
ZeemanSumOK(i, j) ==
    \A f \in Fs(i, j) : RSumSet(Ms(f), LAMBDA m : ZShift(i, j, f, m, <<3, 2>>, 7)) = RZero
DegeneracyOK(i, j) == ISumSet(Fs(i, j), LAMBDA f : f + 1) = (i + 1) * (j + 1)
HfSumRuleOK(i, j1, j2, t) ==      \* from every F of one level to all of the other
    AnyType(t) => \A f1 \in Fs(i, j1) :
        LET S == { f2 \in Fs(i, j2) : HfAllowed(i, j1, j2, t, f1, f2) }
            full == Tri(j1, j2, Rank(t))
        IN RSumSet(S, LAMBDA f2 : HfStrength(i, j1, j2, t, f1, f2))
             = (IF full THEN R(f1 + 1, j1 + 1) ELSE RZero)
ZSumRuleOK(f1, f2, t) ==
    RSumSet(ZPairs(f1, f2, t, FALSE), LAMBDA p : ZStrength(f1, f2, t, p[1], p[2]))
       = (IF Tri(f1, f2, Rank(t)) THEN ROne ELSE RZero)
=============================================================================
