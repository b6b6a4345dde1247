------------------------------ MODULE Spectra ------------------------------
(* Spectra: which curves a plot shows, where they are, how high, and their exact values at the
   points they are sampled at.

   A shape is [k |-> "lor" | "gau" | "mod", w |-> width, mod |-> modulation frequency, sb |-> number of
   sidebands on either side, depth |-> modulation depth].  A value is [e, parts]: exp(-e) times the sum of
   the weights, the weight of the n-th sideband (n in -sb..sb) times the squared Bessel function |n| of the depth. *)
EXTENDS AtomCore

RSquare(x) == RMul(x, x)
(* one at the centre, one half at half the width *)
LorAt(x, w) == RInv(RAdd(ROne, RScale(4, RSquare(RDiv(x, w)))))
ValueAt(sh, x) ==
    CASE sh.k = "lor" -> [e |-> RZero, parts |-> <<[n |-> 0, v |-> LorAt(x, sh.w)]>>]
      [] sh.k = "gau" -> [e |-> RMul(R(1, 2), RSquare(RDiv(x, sh.w))), parts |-> <<[n |-> 0, v |-> ROne]>>]
      [] OTHER -> [e |-> RZero, parts |-> [ i \in 1..(2 * sh.sb + 1) |-> LET n == i - 1 - sh.sb IN
                                              [n |-> n, v |-> LorAt(RSub(x, RScale(n, sh.mod)), sh.w)] ]]
HalfRange(sh, pad) == RAdd(RMul(pad, sh.w), IF sh.k = "mod" THEN RScale(sh.sb, sh.mod) ELSE RZero)
Samples(sh, pad, n) == [ i \in 1..n |-> LET x == RMul(HalfRange(sh, pad), R(2 * (i - 1) - (n - 1), n - 1)) IN
                                          [x |-> x, y |-> ValueAt(sh, x)] ]
(* the number of sidebands when it is not given: the first n with (depth/2)^n <= n!/100 *)
RECURSIVE SidebandsFrom(_, _, _, _)
SidebandsFrom(d, n, pow, fact) == IF RLe(RScale(100, pow), Q(fact)) THEN n ELSE SidebandsFrom(d, n + 1, RMul(pow, RMul(R(1, 2), d)), fact * (n + 1))
Sidebands(d) == SidebandsFrom(d, 0, ROne, 1)

(* how shapes behave *)
ASSUME \A w \in {R(1, 10), ROne, Q(3)} :
    /\ LorAt(RZero, w) = ROne
    /\ LorAt(RMul(R(1, 2), w), w) = R(1, 2)
    /\ ValueAt([k |-> "gau", w |-> w], w).e = R(1, 2)
    /\ \A x \in {R(1, 7), Q(2), R(31, 10)} : LorAt(x, w) = LorAt(RNeg(x), w) /\ RLt(LorAt(x, w), ROne)
SymmetricSamples(q) == \A i \in DOMAIN q : LET j == Len(q) + 1 - i IN
    /\ q[j].x = RNeg(q[i].x)
    /\ q[j].y.e = q[i].y.e
    /\ LET a == q[i].y.parts b == q[j].y.parts IN \A n \in DOMAIN a : b[Len(b) + 1 - n].v = a[n].v
SomeShapes == { [k |-> "lor", w |-> R(1, 10), mod |-> ROne, sb |-> 0], [k |-> "gau", w |-> R(3, 2), mod |-> ROne, sb |-> 0],
                [k |-> "mod", w |-> R(1, 2), mod |-> Q(3), sb |-> 2] }
ASSUME \A sh \in SomeShapes, n \in {2, 5, 8}, p \in {ROne, Q(20)} : SymmetricSamples(Samples(sh, p, n))

(* the components of a transition or of a component, as a sequence *)
Children(s, t) ==
    LET k == Key(t[1][1], t[2][1])
        z == CompPathsOf(s, k).zq
    IN IF Len(t[1]) = 1 THEN CompPathsOf(s, k).hfq
       ELSE SelectSeq(z, LAMBDA c : SubSeq(c[1], 1, 2) = t[1] /\ SubSeq(c[2], 1, 2) = t[2])
AllZ(s, t) == IF Len(t[1]) = 1 THEN CompPathsOf(s, Key(t[1][1], t[2][1])).zq ELSE Children(s, t)
(* the lines shown when ts is plotted *)
LinesOf(s, kind, ts, alone) ==
    LET each(f(_)) == Flatten([ n \in DOMAIN ts |-> f(ts[n]) ])
    IN CASE kind = "hf" -> each(LAMBDA t : Children(s, t))
         [] kind = "z" -> each(LAMBDA t : AllZ(s, t))
         [] kind = "any" /\ alone -> Children(s, ts[1])
         [] OTHER -> ts
Side(s, kind, p) == IF kind = "z" THEN "F=" \o FracText(p[2]) \o ", mF=" \o FracText(p[3]) ELSE Label(W(s), p)
LineStrength(s, t) == IF Len(t[1]) = 1 THEN ROne ELSE StrengthOf(s, t)
(* What a colouring goes by: curves have one hue exactly if they agree in the first value, and are lighter the
   higher the second.  <<>>: black *)
HueOf(kind, color, t) ==
    LET c == IF color # "default" THEN color ELSE IF kind = "hf" THEN "l" ELSE IF kind = "z" THEN "transition_type" ELSE "none"
        n == Len(t[1])
        x == t[1][n]
        y == t[2][n]
    IN IF n = 1 \/ kind = "raw" THEN <<>>
       ELSE CASE c = "l" -> <<x, y>>
              [] c = "u" -> <<y, x>>
              [] c = "transition_type" /\ n = 3 -> <<y - x, x>>
              [] OTHER -> <<>>
Curve(s, kind, color, t, amp) ==
    [ t |-> t, hue |-> HueOf(kind, color, t), f |-> Gap(s, t), h |-> RMul(LineStrength(s, t), amp), amp |-> amp, lo |-> Side(s, kind, t[1]), up |-> Side(s, kind, t[2]) ]
=============================================================================
