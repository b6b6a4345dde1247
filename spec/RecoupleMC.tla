----------------------------- MODULE RecoupleMC -----------------------------
(* Coupled states with every way of writing them, their LS composition and the
   Lande factors: all valid states in a box, or random ones, alone or mixed. *)
EXTENDS RandomStates, Json
CONSTANTS Random,         \* TRUE: random states further out
          Kinds,          \* couplings
          Mix,            \* up to this many components per state
          Part, Parts
VARIABLES g               \* <<J, <<[kind, x, pct, style]>> >>

Pcts == {1, 5, 10, 12, 20, 25, 33, 34, 40, 41, 50, 60, 75, 90, 100}
Styles == Fronts \X Mids \X BOOLEAN \X BOOLEAN \X BOOLEAN
RandomPart(J) == UNION { UNION { { [kind |-> kind, x |-> x, pct |-> pct, style |-> st] : pct \in One(Pcts), st \in One(Styles) }
                                 : x \in RandomX(kind, J) } : kind \in One(Kinds) }
RECURSIVE RandomParts(_, _)
RandomParts(J, n) == IF n = 0 THEN {<<>>}
                     ELSE UNION { { <<p>> \o q : q \in RandomParts(J, n - 1) } : p \in RandomPart(J) }

L4 == Evens(MaxL)
S4 == 0..MaxS
J4 == 0..MaxJ
AllX(kind) == CASE kind = "LS" -> L4 \X S4
                [] kind = "JJ" -> L4 \X S4 \X J4 \X L4 \X S4 \X J4
                [] kind = "JK" -> L4 \X S4 \X J4 \X L4 \X S4 \X J4
                [] OTHER -> L4 \X S4 \X L4 \X S4 \X L4 \X J4
Alone(J, kind, x) == <<J, << [kind |-> kind, x |-> x, pct |-> 100, style |-> <<"4f13.", ".6s.", TRUE, FALSE, x[1] % 4 = 2>>] >> >>

Init == IF Random THEN g = <<>>
        ELSE \E kind \in Kinds, J \in J4 : \E x \in AllX(kind) :
             /\ (x[1] + x[2] + J) % Parts = Part /\ Valid(kind, x, J) /\ g = Alone(J, kind, x)
Next == IF Random THEN \E J \in One(0..MaxJ), n \in One(1..Mix) : \E q \in RandomParts(J, n) : g' = <<J, q>>
        ELSE UNCHANGED g
Spec == Init /\ [][Next]_g

PartRow(J, p) ==
    [ kind |-> p.kind, pct |-> p.pct, x |-> p.x,
      forms |-> Forms(p.kind, p.x, p.style[1], p.style[2], p.style[3], p.style[4], p.style[5]),
      ls |-> { [ l |-> r.l, s |-> r.s, lab |-> r.lab, w |-> WJson(r.w), X |-> LandeX(r.l, r.s, J) ] : r \in ToLS(p.kind, p.x, J) } ]
Row == [ J |-> g[1], jt |-> FracText(g[1]), parts |-> [ n \in DOMAIN g[2] |-> PartRow(g[1], g[2][n]) ],
         blank |-> BlankForms,
         lead |-> { n \in DOMAIN g[2] : \A m \in DOMAIN g[2] : g[2][m].pct <= g[2][n].pct },
         subs |-> { [ f |-> f, ft |-> FracText(f), m |-> m, mt |-> FracText(m) ]
                    : f \in {g[1] + 1, g[1] + 3, Abs(g[1] - 3)}, m \in {-Abs(g[1] - 3), Abs(g[1] - 3)} } ]
Printed == g # <<>> => PrintT("@@" \o ToJson(Row))

(* every valid state decomposes completely; states that LS-couple are themselves *)
Normalised(p, J) == RSumSet(ToLS(p.kind, p.x, J), LAMBDA r : SqRat(r.w)) = ROne
Theorems == (g # <<>> /\ ~Random) => \A n \in DOMAIN g[2] : Valid(g[2][n].kind, g[2][n].x, g[1]) /\ Normalised(g[2][n], g[1])
ValidStates == g # <<>> => \A n \in DOMAIN g[2] : Valid(g[2][n].kind, g[2][n].x, g[1])
=============================================================================
