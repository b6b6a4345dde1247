------------------------------- MODULE AtomMC -------------------------------
(* Drives AtomCore: behaviours for replay on the code (history in h), and
   exhaustive exploration of the specification itself (history hidden by VIEW). *)
EXTENDS Diagram, Spectra, RandomWorlds

CONSTANTS Kinds,      \* operations that may happen
          Often,      \* those of them that make up at least half of a random behaviour
          Depth,      \* number of operations in a behaviour
          Show,       \* observations printed after every operation
          Sim,        \* TRUE: one random candidate per kind; FALSE: all candidates
          MinGap,     \* the least distance of two levels, in tenths of the unit of energy
          NoCross,    \* TRUE: the two levels of a transition keep their order in energy
          Emit        \* TRUE: print behaviours

VARIABLES ss,         \* the atoms: one state, or two after saving and loading
          h           \* what happened: <<[op, ss]>>
vars == <<ss, h>>

Pick(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S

---------------------------------------------------------------------------
RECURSIVE AddLevels(_, _)
AddLevels(s, q) == IF q = <<>> THEN s ELSE AddLevels(AddLevel(s, Head(q), ""), Tail(q))
RECURSIVE AddTranss(_, _)
AddTranss(s, q) == IF q = <<>> THEN s
                   ELSE AddTranss(AddTrans(s, Head(q).a, Head(q).b, Head(q).sf, Head(q).A, ""), Tail(q))
Start(n) == TLCEval(AddTranss(AddLevels(Init0(n), WorldAt(n).start), WorldAt(n).tr0))

Init == \E n \in DOMAIN TLCGet(WorldSlot) : ss = <<Start(n)>> /\ h = <<>>

---------------------------------------------------------------------------
(* levels stay separated, so that "lower" and ranks are unambiguous *)
Separated(s) == \A a, b \in Ids(s) : a < b => RLe(R(MinGap, 10), RAbs(RSub(s.E[a][1], s.E[b][1])))
Ordered(s) == \A k \in DOMAIN s.tr : RLt(s.E[s.tr[k].up][1], s.E[s.tr[k].lo][1]) = FALSE
Positive(s) == \A l \in Ids(s) : RLe(Q(-2000), s.E[l][1])
Sane(s) == Separated(s) /\ (NoCross => Ordered(s)) /\ Positive(s)

Dirty(s) == { C \in Networks(s) : ~Satisfied(s, s.E, C) }
(* a network whose levels are partly unknown can only be laid out again from a known anchor *)
EnforceOK(s, CC) == \A C \in CC : Anchor(s, C) \notin s.loose
Fresh(s, S) == { a \in S : a \notin DOMAIN s.al /\ a \notin DOMAIN s.tal }

(* how a value is given does not matter to the specification itself *)
OneOf(S) == IF Emit THEN S ELSE {CHOOSE x \in S : TRUE}
EnergyUnits == OneOf({"Hz", "GHz", "THz", "1/cm", "1/m"})
FreqUnits == OneOf({"MHz", "GHz", "THz", "1/cm", "nm", "um"})
AUnits == OneOf({"Hz", "kHz", "MHz"})
HfUnits == OneOf({"MHz", "GHz", "1/cm"})
FreqForms == OneOf({"attr", "call"})

V(s) == W(s).vals
AliasesL(s) == W(s).aliases
AliasesT(s) == W(s).taliases

LevelKeysOf(s, l) == { Name(s, <<l>>) } \cup { a \in DOMAIN s.al : s.al[a] = <<l>> }
RankOf(s, l) == CHOOSE n \in 0..(Cardinality(s.in) - 1) : Ranks(s)[n + 1] = l

TextForms(s, p) == { [ty |-> "s", v |-> Name(s, p), rest |-> <<>>] }
    \cup { [ty |-> "s", v |-> a, rest |-> <<>>] : a \in { x \in DOMAIN s.al : s.al[x] = p } }
    \cup (IF I2(s) = 0 /\ Len(p) = 3 THEN { [ty |-> "s", v |-> MJName(s, p), rest |-> <<>>] } ELSE {})
PairForms(s, p) == TextForms(s, p) \cup { [ty |-> "o", v |-> p, rest |-> <<>>] }
    \cup (IF Len(p) = 1 THEN { [ty |-> "n", v |-> RankOf(s, p[1]), rest |-> <<>>],
                               [ty |-> "n", v |-> RankOf(s, p[1]) - Cardinality(s.in), rest |-> <<>>] } ELSE {})

FineT(s) == { TPath(s, k) : k \in DOMAIN s.tr }
FineTNoSelf(s) == { t \in FineT(s) : t[1] # t[2] }
KeyOfT(t) == Key(t[1][1], t[2][1])
NoSelf(s) == { x \in DOMAIN s.tr : x[1] # x[2] }
PickAt(q) == IF q = <<>> THEN {} ELSE { q[n] : n \in Pick(DOMAIN q) }
SomeComp(s) == UNION { PickAt(CompPathsOf(s, k).hfq) : k \in Pick(NoSelf(s)) }
SomeZComp(s) == UNION { PickAt(CompPathsOf(s, k).zq) : k \in Pick(NoSelf(s)) }
(* transitions and components of any tier; all of their levels known when tight *)
SomeT(s, selfs, tight) ==
    UNION { (IF 1 \in tiers THEN {TPath(s, k)} ELSE {})
            \cup (IF 2 \in tiers /\ k[1] # k[2] THEN PickAt(CompPathsOf(s, k).hfq) ELSE {})
            \cup (IF 3 \in tiers /\ k[1] # k[2] THEN PickAt(CompPathsOf(s, k).zq) ELSE {})
            : k \in Pick({ x \in DOMAIN s.tr : (selfs \/ x[1] # x[2]) /\ (tight => {x[1], x[2]} \cap s.loose = {}) }),
              tiers \in IF Sim THEN {{RandomElement({1, 2, 3})}} ELSE {{1, 2, 3}} }
Tiered(s, n) == UNION { IF n = 1 THEN {<<l>>} ELSE IF n = 2 THEN HfPaths(s, l)
                        ELSE UNION { ZPathsOf(p) : p \in HfPaths(s, l) } : l \in s.in }
SomePaths(s) == IF s.in = {} THEN {}
                ELSE IF Sim THEN Tiered(s, RandomElement({1, 2, 3})) ELSE AllPaths(s)

---------------------------------------------------------------------------
(* Candidates for every kind of operation; o.op \in ops of AtomCore *)
Hows(s, a, b, A) ==
    (IF a \in s.in /\ b \in s.in THEN {"names", "objs"} ELSE {})
    \cup (IF a \in s.in /\ b \in s.in /\ \E x, y \in DOMAIN s.al : s.al[x] = <<a>> /\ s.al[y] = <<b>> THEN {"aliases"} ELSE {})
    \cup {"obj", "append"}

AliasOf(s, l) == IF \E x \in DOMAIN s.al : s.al[x] = <<l>> THEN CHOOSE x \in DOMAIN s.al : s.al[x] = <<l>> ELSE ""
WithKeys(s, S) == { o @@ [ka |-> AliasOf(s, o.a), kb |-> AliasOf(s, o.b)] : o \in S }

BadTexts(s) ==
    { "nonsense", "", "F=1", "mF=0", "mJ=1/2", "F=1 mF=0", " mF=1/2", "6s 2S1/2 F=1 mF=0 x", " " }
    \cup { Name(s, <<l>>) : l \in Ids(s) \ s.in }
    \cup { Name(s, <<l, CHOOSE f \in Fs(I2(s), LJ(s, l)) : TRUE>>) : l \in Ids(s) \ s.in }
    \cup { Name(s, <<l>>) \o " F=99" : l \in s.in }
    \cup { Name(s, <<l>>) \o " F=99 mF=0" : l \in s.in }
    \cup { Name(s, <<l>>) \o " mF=0" : l \in s.in }
    \cup { Name(s, <<l>>) \o x : x \in {"x", " "}, l \in s.in }
    \cup { " " \o Name(s, <<l>>) : l \in s.in }
    \cup { Name(s, <<l>>) \o " mJ=" \o FracText(m) : l \in s.in, m \in {-2, 0, 1, 3} }
    \cup { Name(s, <<l>>) \o " " \o Name(s, <<l>>) : l \in s.in }
    \cup { W(s).lv[l].c \o " " \o W(s).lv[l].t : l \in s.in }
    \cup { W(s).lv[l].c : l \in s.in }
    \cup { Name(s, p) \o x : x \in {" mF=99", " mJ=1/2", " "}, p \in UNION { HfPaths(s, l) : l \in s.in } }
    \cup (AliasesL(s) \cup AliasesT(s))

LookLKeys(s) ==
    LET P == Pick(AllPaths(s))
        B == Pick(BadTexts(s))
    IN UNION { TextForms(s, p) : p \in P }
       \cup UNION { { [ty |-> k.ty, v |-> k.v, rest |-> <<Label(W(s), p)>>] : k \in PairForms(s, SubSeq(p, 1, Len(p) - 1)) }
                    : p \in { x \in P : Len(x) > 1 } }
       \cup UNION { { [ty |-> k.ty, v |-> k.v, rest |-> <<Label(W(s), SubSeq(p, 1, 2)), Label(W(s), p)>>]
                      : k \in PairForms(s, SubSeq(p, 1, 1)) } : p \in { x \in P : Len(x) = 3 } }
       \cup UNION { { [ty |-> k.ty, v |-> k.v, rest |-> <<"mJ=" \o FracText(p[3])>>] : k \in PairForms(s, SubSeq(p, 1, 1)) }
                    : p \in { x \in P : Len(x) = 3 /\ I2(s) = 0 } }
       \cup { [ty |-> "s", v |-> b, rest |-> <<>>] : b \in B }
       \cup UNION { { [ty |-> k.ty, v |-> k.v, rest |-> <<b>>] : k \in PairForms(s, p), b \in {"F=77", "mF=77", "mJ=1/2", "mJ=0", "F=", "x", ""} }
                    : p \in { x \in P : Len(x) < 3 } }
       \cup { [ty |-> "n", v |-> n, rest |-> <<>>] : n \in (-Cardinality(s.in) - 1)..Cardinality(s.in) }
LookL(s) == { [op |-> "lookL", key |-> k, exp |-> Lookup(s, k),
               err |-> IF Lookup(s, k) = <<>> THEN LookupErr(s, k) ELSE ""] : k \in Pick(LookLKeys(s)) }

(* every step-th item from a on, up to b, downwards if the step is negative (-1: to the first item) *)
RECURSIVE SliceOf(_, _, _, _)
SliceOf(q, a, b, step) == IF (step > 0 /\ a >= b) \/ (step < 0 /\ a <= b) THEN <<>>
                          ELSE <<q[a + 1]>> \o SliceOf(q, a + step, b, step)
Slices(s) == LET n == Cardinality(s.in) IN
    { [op |-> "slice", lo |-> a, hi |-> b, step |-> step, neg |-> neg, exp |-> SliceOf(Ranks(s), a, b, step)]
      : a \in 0..n, b \in 0..n, step \in {1, 2}, neg \in BOOLEAN }
    \cup { [op |-> "slice", lo |-> a, hi |-> b, step |-> step, neg |-> neg, exp |-> SliceOf(Ranks(s), a, b, step)]
           : a \in 0..(n - 1), b \in -1..(n - 1), step \in {-1, -2}, neg \in BOOLEAN }

LookTPairs(s) ==
    LET good == Pick(SomeComp(s)) \cup Pick(SomeZComp(s)) \cup Pick(FineT(s))
        bad == LET p == Pick(SomePaths(s)) q == Pick(SomePaths(s)) IN p \X q
    IN UNION { UNION { { <<a, b>>, <<b, a>> } : a \in PairForms(s, t[1]), b \in PairForms(s, t[2]) }
               : t \in good \cup bad }
       \cup { <<a, [ty |-> "s", v |-> b, rest |-> <<>>]>> :
              a \in UNION { PairForms(s, p) : p \in Pick(SomePaths(s)) }, b \in Pick(BadTexts(s)) }
LookT(s) == { [op |-> "lookT", a |-> k[1], b |-> k[2], exp |-> LookupPair(s, k[1], k[2]),
               err |-> IF LookupPair(s, k[1], k[2]) = <<>> THEN PairErr(s, k[1], k[2]) ELSE ""]
              : k \in Pick(LookTPairs(s)) }
LookTA(s) == { [op |-> "lookTA", a |-> a, exp |-> IF a \in DOMAIN s.tal THEN s.tal[a] ELSE <<>>,
                err |-> IF a \in DOMAIN s.tal THEN "" ELSE "KeyError"]
               : a \in AliasesT(s) \cup AliasesL(s) \cup {"nonsense"} }
Pref(s, t, n) == IF n = 1 THEN <<<<t[1][1]>>, <<t[2][1]>>>> ELSE <<SubSeq(t[1], 1, 2), SubSeq(t[2], 1, 2)>>
LabelsOf(s, t) == <<Label(W(s), t[1]), Label(W(s), t[2])>>
LookTN(s) ==
    LET C == Pick(SomeComp(s))
        Z == Pick(SomeZComp(s))
        mk(base, rest) == [op |-> "lookTN", base |-> base, rest |-> rest, exp |-> TRest(s, base, rest),
                           err |-> IF TRest(s, base, rest) = <<>> THEN "KeyError" ELSE ""]
    IN { mk(Pref(s, t, 1), <<LabelsOf(s, t)>>) : t \in C }
       \cup { mk(Pref(s, t, 1), <<LabelsOf(s, Pref(s, t, 2)), LabelsOf(s, t)>>) : t \in Z }
       \cup { mk(Pref(s, t, 2), <<LabelsOf(s, t)>>) : t \in Z }
       \cup { mk(Pref(s, t, 1), <<<<Label(W(s), t[1]), "F=77">>>>) : t \in C }
       \cup { mk(Pref(s, t, 1), <<LabelsOf(s, Pref(s, t, 2)), <<"mF=77", Label(W(s), t[2])>>>>) : t \in Z }

Stamp == IF Emit THEN Len(h) + 1 ELSE 1
Files == {"", "hf.csv", "a b.txt"}         \* "": the name the writer chooses itself
ReadKinds == {"len", "lens", "names", "iter", "slices", "badkeys", "goodkeys", "reprs", "comps", "components",
              "linked", "branching", "lifetime", "energies", "freqs", "draw", "grotrian", "spectrum", "strengths",
              "aliases", "csv", "terms", "save"}
AllTr(s) == FineT(s)

(* diagrams *)
One1(S) == {RandomElement(S)}
DgSq(s, p) == {-1, -1, -2} \cup { HighF(s, l) : l \in s.in }
DgOptions(s, p, st) ==
    LET D == Default
        x == RandomElement(1..8)          \* leave most options alone, or change many of them
        opt(S, d) == IF RandomElement(1..8) <= x THEN RandomElement(S) ELSE d
    IN { [ W |-> opt({R(4, 5), ROne, R(3, 2)}, D.W), x0 |-> opt({<<>>, <<RZero>>, <<R(7, 2)>>}, D.x0), x1 |-> opt({R(-1, 4), RZero, Q(2)}, D.x1),
           y0 |-> opt({<<>>, <<RZero>>, <<Q(250)>>}, D.y0), y1 |-> opt({RZero, Q(10), R(-7, 2)}, D.y1),
           off |-> opt({RZero, R(1, 20), R(-1, 10), R(1, 8)}, D.off), sq |-> opt(DgSq(s, p), D.sq), hs |-> opt({1, 100, 10000, 30000}, D.hs),
           zs |-> opt({1, 2, 5, 12}, D.zs), b |-> opt({ROne, RZero, R(1, 4)}, D.b), a |-> opt({ROne, RZero, R(1, 2)}, D.a),
           pad |-> opt({RZero, R(1, 20), R(1, 4)}, D.pad), box |-> opt({"none", "rect", "bracket", "rectangle"}, D.box),
           h |-> opt({R(1, 20), R(1, 10)}, D.h), lw |-> opt({1, 2, 4}, D.lw), color |-> opt(0..3, D.color) ] : z \in {1} }
DgArrowOptions ==
    { [ a |-> RandomElement(1..9), b |-> RandomElement(1..9), dx0 |-> RandomElement({RZero, RZero, R(1, 10)}), dy0 |-> RandomElement({RZero, RZero, Q(3)}),
        dx1 |-> RandomElement({RZero, RZero, R(-1, 5)}), dy1 |-> RandomElement({RZero, RZero, R(-5, 2)}), defa |-> RandomElement(BOOLEAN) ] : z \in {1} }
Manifolds(d) == { d.pr[n].p[1] : n \in DOMAIN d.pr }
DgLevels(s, d, st, tier) == UNION { UNION { { [op |-> "dgLevel", d |-> d, p |-> p, st |-> st, o |-> o] : o \in DgOptions(s, p, st) }
                                            : p \in One1({ q \in SubPaths(s, l) : Len(q) = tier }) }
                                    : l \in Pick(s.in \ Manifolds(s.dg[d])) }
DgEnds(s, d) == { <<t, EndFor(DrawnPaths(s, s.dg[d]), t[1]), EndFor(DrawnPaths(s, s.dg[d]), t[2])>> :
                  t \in SomeT(s, FALSE, FALSE) \cup { <<p, q>> : p \in Pick(SomePaths(s)), q \in Pick(SomePaths(s)) } }
DgArrows(s, d) == UNION { { [op |-> "dgArrow", d |-> d, a |-> e[1][1], b |-> e[1][2], o |-> o] : o \in DgArrowOptions }
                          : e \in Pick({ x \in DgEnds(s, d) : x[2] # <<>> /\ x[3] # <<>> }) }
DgRender(s, d) == { [op |-> "dgRender", d |-> d, rows |-> RowsFor(s, s.dg[d]), arrows |-> ArrowsFor(s, s.dg[d])] : z \in {1} }

(* spectra *)
PlotWays(s) ==       \* what is plotted: [kind, ts, alone]
    LET fine == { t \in FineTNoSelf(s) : t[1][1] \notin s.loose /\ t[2][1] \notin s.loose /\ AOf(s, t) # <<>> }
        hf == UNION { HfComps(s, KeyOfT(t)) : t \in Pick(fine) }
        z == UNION { ZComps(s, KeyOfT(t)) : t \in Pick(fine) }
        some(S) == IF S = {} THEN {} ELSE LET a == RandomElement(S) b == RandomElement(S) c == RandomElement(S) IN
                     One1({<<a>>, IF a = b THEN <<a>> ELSE <<b, a>>, IF Cardinality({a, b, c}) = 3 THEN <<a, b, c>> ELSE <<c>>,
                           SeqOf({a, b, c} \cup { RandomElement(S) : i \in {1, 2, 3, 4} })})
        alone(S) == { <<t>> : t \in Pick(S) }
        way(kind, ts, al) == [kind |-> kind, ts |-> ts, alone |-> al]
        has(q) == \A n \in DOMAIN q : Children(s, q[n]) # <<>>
    IN UNION { CASE c = 1 -> { way("hf", q, TRUE) : q \in alone(fine) }
                 [] c = 2 -> { way("hf", q, FALSE) : q \in some(fine) }
                 [] c = 3 -> { way("z", q, TRUE) : q \in alone(fine) }
                 [] c = 4 -> { way("z", q, FALSE) : q \in some(fine) }
                 [] c = 5 -> { way("z", q, TRUE) : q \in { x \in alone(hf) : has(x) } }
                 [] c = 6 -> { way("z", q, FALSE) : q \in { x \in some(hf) : has(x) } }
                 [] c = 7 -> { way("any", q, TRUE) : q \in alone(fine) }
                 [] c = 8 -> { way("any", q, TRUE) : q \in { x \in alone(hf) : has(x) } }
                 [] c = 9 -> { way("any", q, FALSE) : q \in some(fine) \cup some(hf) }
                 [] c = 11 -> { way("any", q, FALSE) : q \in some(z) }
                 [] c = 12 -> { way("any", q, FALSE) : q \in UNION { some({ x \in z : x[2][3] - x[1][3] = y[2][3] - y[1][3] }) : y \in Pick(z) } }
                 [] c = 10 -> { way("raw", q, FALSE) : q \in some(fine) \cup some(hf) \cup some(z) }
               : c \in One1(1..12) }
PlotShapes ==
    LET w == RandomElement({R(1, 50), R(1, 10), R(1, 2), Q(3)})
        d == RandomElement({R(1, 2), ROne, R(12, 5), RZero})
        auto == RandomElement(BOOLEAN)
    IN { [ k |-> k, w |-> IF k = "mod" /\ RLt(w, R(1, 10)) THEN R(1, 10) ELSE w, mod |-> RandomElement({ROne, R(3, 2), Q(5)}), depth |-> d, auto |-> auto,
           sb |-> IF auto THEN Sidebands(d) ELSE RandomElement(0..3) ] : k \in One1({"lor", "gau", "mod"}) }
PlotAmps(s, lines) == LET given == RandomElement(BOOLEAN) IN
    [ given |-> given, v |-> [ n \in DOMAIN lines |-> IF given THEN RandomElement({R(1, 2), Q(2), RZero, R(3, 7), ROne}) ELSE ROne ] ]
PlotOf(s, way, sh) ==
    LET lines == LinesOf(s, way.kind, way.ts, way.alone)
        amp == PlotAmps(s, lines)
        pad == RandomElement({Q(20), Q(4), R(5, 2), ROne})
        n == RandomElement({2, 3, 8, 11, 15})
    IN UNION { { [ op |-> "plot", kind |-> way.kind, ts |-> way.ts, alone |-> way.alone, shape |-> sh, given |-> amp.given, pad |-> pad, n |-> n,
         unit |-> IF way.kind \in {"any", "raw"} THEN RandomElement({"GHz", "GHz", "MHz", "THz", "1/cm"}) ELSE "GHz",
         total |-> RandomElement({TRUE, TRUE, FALSE}), color |-> color,
         curves |-> [ i \in DOMAIN lines |-> Curve(s, way.kind, color, lines[i], amp.v[i]) ],
         samples |-> Samples(sh, pad, n) ] } : color \in One1({"none", "l", "u", "transition_type", "call", "default"}) }
(* a plot shows something: a forbidden transition has no components *)
Plots(s) == UNION { UNION { PlotOf(s, way, sh) : sh \in PlotShapes } : way \in { w \in PlotWays(s) : LinesOf(s, w.kind, w.ts, w.alone) # <<>> } }

Raw(s, kind) ==
    CASE kind = "addL" -> { [op |-> "addL", l |-> l, alias |-> a, how |-> hw] :
                              l \in Pick(Ids(s)), a \in Pick(AliasesL(s) \cup {""}), hw \in IF Emit THEN {"add", "append", "eager", "set"} ELSE {"add"} }
      [] kind = "delL" -> UNION { { [op |-> "delL", l |-> l, key |-> k] : k \in OneOf(LevelKeysOf(s, l)) } : l \in Pick(s.in) }
      [] kind = "delBad" -> { [op |-> "delBad", key |-> k, tr |-> FALSE] : k \in { x \in BadTexts(s) \cup AliasesL(s) : LookupText(s, x) = <<>> } }
      [] kind = "aliasL" -> { [op |-> "aliasL", p |-> p, alias |-> a] : p \in Pick(SomePaths(s)), a \in AliasesL(s) }
      [] kind = "addT" -> WithKeys(s, UNION { UNION { { [op |-> "addT", a |-> k[1], b |-> k[2], sf |-> <<>>, A |-> <<>>, alias |-> "", how |-> hw, unit |-> "GHz"]
                                   : hw \in OneOf(Hows(s, k[1], k[2], "")) } }
                                : k \in Pick({ x \in Ids(s) \X Ids(s) : x[1] # x[2] /\ ~Joined(s, x[1], x[2]) }) })
      [] kind = "addTal" -> WithKeys(s, UNION { UNION { { [op |-> "addT", a |-> k[1], b |-> k[2], sf |-> <<>>, A |-> <<>>, alias |-> al, how |-> hw, unit |-> "GHz"]
                                   : hw \in OneOf(Hows(s, k[1], k[2], "") \cup {"set"}), al \in Pick(AliasesT(s)) } }
                                : k \in Pick({ x \in Ids(s) \X Ids(s) : x[1] # x[2] /\ ~Joined(s, x[1], x[2]) }) })
      [] kind = "addTf" -> WithKeys(s, UNION { { [op |-> "addT", a |-> k[1], b |-> k[2], sf |-> VAdd(VSub(s.E[IF Lower(s, k[1], k[2]) = k[1] THEN k[2] ELSE k[1]], s.E[Lower(s, k[1], k[2])]), VU(d)),
                                     A |-> <<>>, alias |-> "", how |-> hw, unit |-> u]
                                   : hw \in OneOf(Hows(s, k[1], k[2], "")), u \in Pick(FreqUnits), d \in V(s).df }
                                : k \in Pick({ x \in Ids(s) \X Ids(s) : x[1] # x[2] /\ ~Joined(s, x[1], x[2])
                                                  /\ x[1] \notin s.loose /\ x[2] \notin s.loose }) })
      [] kind = "addTA" -> WithKeys(s, UNION { { [op |-> "addT", a |-> k[1], b |-> k[2], sf |-> <<>>, A |-> v, alias |-> "", how |-> hw, unit |-> u]
                                   : hw \in OneOf(Hows(s, k[1], k[2], "")), u \in Pick(AUnits), v \in V(s).A \cup {<<>>} }
                                : k \in Pick({ x \in Ids(s) \X Ids(s) : x[1] # x[2] /\ ~Joined(s, x[1], x[2]) }) })
      [] kind = "selfT" -> WithKeys(s, { [op |-> "addT", a |-> l, b |-> l, sf |-> <<>>, A |-> v, alias |-> "", how |-> hw, unit |-> "MHz"]
                             : l \in { x \in s.in : ~Joined(s, x, x) }, hw \in {"obj", "names"}, v \in Pick(V(s).A \cup {<<>>}) })
      [] kind = "againT" -> { [op |-> "againT", a |-> IF sw THEN k[2] ELSE k[1], b |-> IF sw THEN k[1] ELSE k[2], how |-> hw]
                              : k \in Pick(DOMAIN s.tr), sw \in BOOLEAN, hw \in {"same", "append", "names", "objs"} }
      [] kind = "delT" -> UNION { { [op |-> "delT", a |-> t[1][1], b |-> t[2][1], key |-> k]
                                    : k \in OneOf({ <<f, g>> : f \in PairForms(s, t[1]), g \in PairForms(s, t[2]) }
                                            \cup { <<f, g>> : f \in PairForms(s, t[2]), g \in PairForms(s, t[1]) }
                                            \cup { <<[ty |-> "a", v |-> a, rest |-> <<>>]>> : a \in { x \in DOMAIN s.tal : s.tal[x] = t } }) }
                                  : t \in Pick(FineT(s)) }
      [] kind = "aliasT" -> { [op |-> "aliasT", t |-> t, alias |-> a] : t \in SomeT(s, TRUE, FALSE), a \in AliasesT(s) }
      [] kind = "setE" -> { [op |-> "setE", p |-> p, v |-> VU(v), unit |-> u] : p \in Pick(SomePaths(s)), v \in V(s).e, u \in Pick(EnergyUnits) }
      [] kind = "setE0" -> { [op |-> "setE", p |-> <<l>>, v |-> VU(v), unit |-> u] : l \in s.in, v \in V(s).e, u \in Pick(EnergyUnits) }
      [] kind = "nudgeE" -> { [op |-> "setE", p |-> p, v |-> VAdd(En(s, p), VU(v)), unit |-> u]
                              : p \in Pick({ x \in SomePaths(s) : x[1] \notin s.loose }), v \in V(s).df, u \in Pick(EnergyUnits) }
      [] kind = "setHf" -> { [op |-> "setHf", l |-> l, n |-> n, v |-> v, unit |-> u, id |-> Stamp] :
                               l \in Pick(s.in), n \in {1, 2, 3}, v \in V(s).hf, u \in Pick(HfUnits) }
      [] kind = "setG" -> { [op |-> "setG", l |-> l, v |-> v] : l \in s.in, v \in V(s).g }
      [] kind = "setGF" -> { [op |-> "setGF", p |-> p, v |-> v] : p \in Pick(Tiered(s, 2)), v \in V(s).g }
      [] kind = "setB" -> { [op |-> "setB", v |-> v, unit |-> u] : v \in V(s).b, u \in {"G", "mG", "kG"} }
      [] kind = "setQ" -> { [op |-> "setQ", p |-> p, v |-> v] : p \in Pick(Tiered(s, 3)), v \in V(s).q }
      [] kind = "setF" -> { [op |-> "setF", t |-> t, v |-> VAdd(Gap(s, t), VU(d)), unit |-> u, form |-> f] :
                              t \in SomeT(s, FALSE, TRUE),
                              d \in V(s).df, u \in Pick(FreqUnits), f \in FreqForms }
      [] kind = "setF1" -> { [op |-> "setF", t |-> t, v |-> VAdd(Gap(s, t), VU(d)), unit |-> u, form |-> f] :
                              t \in Pick({ x \in FineTNoSelf(s) : x[1][1] \notin s.loose /\ x[2][1] \notin s.loose }),
                              d \in V(s).df, u \in Pick(FreqUnits), f \in FreqForms }
      (* the frequency that makes the loops of the transition's network close *)
      [] kind = "closeF" -> UNION { LET s1 == [s EXCEPT !.tr = [@ EXCEPT ![KeyOfT(t)] = [@ EXCEPT !.sf = <<>>]]]
                                        C == Network(s1, t[1][1])
                                        E == Layout(s1, C)
                                    IN IF t[2][1] \in C /\ Satisfied(s1, E, C) /\ Anchor(s1, C) \notin s.loose
                                       THEN { [op |-> "setF", t |-> t, v |-> VSub(E[t[2][1]], E[t[1][1]]), unit |-> u, form |-> f]
                                              : u \in Pick(FreqUnits), f \in FreqForms }
                                       ELSE {} : t \in Pick({ x \in FineTNoSelf(s) : s.tr[KeyOfT(x)].sf # <<>> \/ TRUE }) }
      [] kind = "setA" -> { [op |-> "setA", a |-> k[1], b |-> k[2], v |-> v, unit |-> u] :
                              k \in Pick(DOMAIN s.tr), v \in V(s).A \cup {<<>>}, u \in AUnits }
      [] kind = "setAC" -> { [op |-> "setAC", t |-> t, v |-> v, unit |-> u] :
                              t \in { x \in SomeT(s, FALSE, FALSE) : Len(x[1]) > 1 }, v \in V(s).A \cup {<<>>}, u \in AUnits }
      [] kind = "pop" -> { [op |-> "pop", allowed |-> a] : a \in BOOLEAN \X BOOLEAN \X BOOLEAN }
      [] kind = "popInt" -> { [op |-> "popInt"] }
      [] kind = "popDf" -> { [op |-> "popDf", rows |-> r] : r \in Pick(W(s).rows) }
      (* the file asked for is stem, or stem.atom when ext; on disk it is always stem.atom; "": no name is given, the atom's own is used *)
      [] kind = "save" -> { [op |-> "save", stem |-> f, ext |-> x] :
                              f \in {"atom1", "my.data", "a.b/c", "dir.atom/x", "x.atom.bak", "Yb 171", "v1.2", "atom", "my.atom1", ""}, x \in BOOLEAN }
      [] kind = "csvW" -> { [op |-> "csvW", file |-> f, blank |-> bl, d |-> d, def |-> df, unit |-> u, id |-> Stamp] :
                              f \in Pick(Files), bl \in {TRUE, FALSE} \ (IF RandomElement({1, 2, 3, 4}) > 1 THEN {TRUE} ELSE {}), d \in V(s).hf, df \in BOOLEAN, u \in Pick(HfUnits) }
      [] kind = "csvHand" -> { [op |-> "csvHand", file |-> f, rows |-> r, v |-> <<a, b, a>>, id |-> Stamp] :
                              f \in Pick(Files), r \in Pick(SUBSET Ids(s)), a \in V(s).hf \ {RZero}, b \in V(s).hf \ {RZero} }
      [] kind = "csvA" -> { [op |-> "csvA", file |-> f] : f \in DOMAIN s.disk }
      [] kind = "dgLevel" -> UNION { UNION { DgLevels(s, d, st[1], st[2]) : st \in One1({<<"g", 1>>, <<"hf", 1>>, <<"z", 1>>, <<"hf", 2>>, <<"z", 2>>, <<"z", 3>>, <<"g", 2>>}) }
                                       : d \in One1({1, 2}) }
      [] kind = "dgArrow" -> UNION { DgArrows(s, d) : d \in One1({1, 2}) }
      [] kind = "dgQuick" -> { [op |-> "dgQuick", rows |-> { [p |-> <<l>>, e |-> s.E[l], j |-> LJ(s, l)] : l \in s.in },
                                edges |-> { TPath(s, k) : k \in NoSelf(s) }] : z \in {1} }
      [] kind = "dgRender" -> UNION { DgRender(s, d) : d \in One1({ n \in {1, 2} : s.dg[n].pr # <<>> } \cup {1}) }
      [] kind = "plot" -> Plots(s)
      [] kind = "fresh" -> { [op |-> "fresh"] }
      [] kind = "delTBad" -> { [op |-> "delTBad", key |-> <<f, g>>] :
                              f \in UNION { PairForms(s, <<l>>) : l \in s.in }, g \in UNION { PairForms(s, <<l>>) : l \in { x \in s.in : TRUE } } }
      [] kind = "lookL" -> LookL(s)
      [] kind = "slice" -> Slices(s)
      [] kind = "lookT" -> LookT(s)
      [] kind = "lookTA" -> LookTA(s)
      [] kind = "lookTN" -> LookTN(s)
      [] kind = "read" -> { [op |-> "read", what |-> x, p |-> p, t |-> t] :
                              x \in Pick(ReadKinds), p \in Pick(SomePaths(s)),
                              t \in LET q == SomeT(s, TRUE, FALSE) IN IF q = {} THEN {<<>>} ELSE q }

(* preconditions beyond the sets above *)
SpareNetwork(s, C) == \A x \in Dirty(s) : x = C
Pre(s, o) ==
    CASE o.op = "addL" -> /\ (o.how \in {"append", "eager"} => o.alias = "") /\ (o.how = "set" => o.alias # "")
                          /\ (o.alias = "" => AddLevelOK(s, o.l))
      [] o.op = "addT" -> /\ AddLevelOK(s, o.a) /\ AddLevelOK(s, o.b)
                          /\ (s.la[o.a] = "" \/ s.la[o.a] # s.la[o.b] \/ {o.a, o.b} \subseteq s.in \/ o.a = o.b)
                          /\ (o.sf # <<>> => LET s1 == Apply(s, o) IN EnforceOK(s, Networks(s)))
      [] o.op = "againT" -> s.tr[Key(o.a, o.b)].sf # <<>> => EnforceOK(s, Networks(s))
      [] o.op = "setE" -> s.loose = {} \/ o.p[1] \notin s.loose
      [] o.op = "setF" -> LET k == Key(o.t[1][1], o.t[2][1])
                              s1 == [s EXCEPT !.tr = [@ EXCEPT ![k] = [@ EXCEPT !.sf = VU(Q(1))]]]
                          IN EnforceOK(s, {Network(s1, k[1])}) /\ Gap(s, o.t)[1][1] > 0
      [] o.op = "csvW" -> (~o.def => o.d = RZero) /\ (o.blank => ~o.def)
      [] o.op = "csvHand" -> o.file # ""
      [] o.op = "dgQuick" -> s.loose = {}
      [] o.op = "dgLevel" -> o.p[1] \notin s.loose
      [] o.op = "dgRender" -> (\A l \in Manifolds(s.dg[o.d]) : l \notin s.loose) /\ s.dg[o.d].pr # <<>>
      [] o.op = "delTBad" -> LookupPair(s, o.key[1], o.key[2]) = <<>>
      [] OTHER -> TRUE

(* a network left unsatisfied by moving a level: laying out all networks may or may not touch it *)
Mark(s, o, t) ==
    LET all == \/ o.op = "addT" /\ o.sf # <<>>
               \/ o.op = "againT" /\ s.tr[Key(o.a, o.b)].sf # <<>>
               \/ o.op = "popDf"
        far == { C \in Dirty(s) : o.op # "addT" \/ (o.a \notin C /\ o.b \notin C) }
    IN IF all /\ far # {} THEN [t EXCEPT !.loose = @ \cup UNION far] ELSE t

After(who, o) == Mark(ss[who], o, Apply(ss[who], o))
Can(who, o) == Pre(ss[who], o) /\ Sane(After(who, o))
Do(who, o) ==
    /\ ss' = CASE o.op = "save" -> <<ss[who], Loaded(ss[who])>>
             [] o.op = "fresh" -> <<ss[who], [Start(ss[who].w) EXCEPT !.disk = ss[who].disk]>>
             [] o.op \in {"csvW", "csvHand"} -> LET d == After(who, o).disk IN [n \in DOMAIN ss |-> [ss[n] EXCEPT !.disk = d, !.warn = "no"]]
             [] OTHER -> [ss EXCEPT ![who] = After(who, o)]
    /\ h' = IF Emit THEN Append(h, [op |-> o, who |-> who, ss |-> ss']) ELSE h

Choice(S) == IF S = {} THEN {[op |-> "skip"]} ELSE {RandomElement(S)}
Skip == /\ ss' = ss
        /\ h' = IF Emit THEN Append(h, [op |-> [op |-> "skip"], who |-> 1, ss |-> ss]) ELSE h
(* simulation: one random candidate, or nothing when it is not enabled *)
RandomStep ==
    \E who \in {RandomElement(DOMAIN ss)} : \E kind \in {RandomElement(IF Often # {} /\ RandomElement(BOOLEAN) THEN Often ELSE Kinds)} : \E o \in Choice(Raw(ss[who], kind)) :
        IF o.op # "skip" /\ Can(who, o) THEN Do(who, o) ELSE Skip
Next == /\ (~Emit \/ Len(h) < Depth)
        /\ IF Sim THEN RandomStep
           ELSE \E kind \in Kinds : \E who \in DOMAIN ss : \E o \in Raw(ss[who], kind) : Can(who, o) /\ Do(who, o)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* printing a finished behaviour *)
Obs(s) ==
    [ x \in Show |->
        CASE x = "en"      -> ObsEnergies(s)
          [] x = "fine"    -> ObsFine(s)
          [] x = "freqs"   -> ObsFreqs(s)
          [] x = "sub"     -> ObsSubFreqs(s)
          [] x = "A"       -> ObsA(s)
          [] x = "comps"   -> ObsComps(s)
          [] x = "members" -> ObsMembers(s)
          [] x = "const"   -> ObsConst(s)
          [] x = "ids"     -> ObsIds(s)
          [] x = "decay"   -> { DecayJson(s, p) : p \in AllPaths(s) }
          [] x = "warn"    -> s.warn ]
Pub(s) == [obs |-> Obs(s), warn |-> s.warn]
WorldJson(n) == LET w == WorldAt(n) IN
    [ id |-> n, i |-> w.i, b |-> w.b, unit |-> w.unit, start |-> w.start, tr0 |-> w.tr0,
      lv |-> [ l \in DOMAIN w.lv |-> [ c |-> w.lv[l].c, t |-> w.lv[l].t, j |-> w.lv[l].j, e |-> w.lv[l].e,
                                       hf |-> w.lv[l].hf, g |-> w.lv[l].g, al |-> w.lv[l].al ] ] ]
Behaviour ==
    [ world |-> WorldJson(ss[1].w), start |-> Obs(Start(ss[1].w)),
      steps |-> [ n \in DOMAIN h |-> [ op |-> h[n].op, who |-> h[n].who,
                                       ss |-> [ m \in DOMAIN h[n].ss |-> Pub(h[n].ss[m]) ] ] ] ]
(* every key of a starting atom at once *)
KeysPrinted == PrintT("@@" \o ToJson([ world |-> WorldJson(ss[1].w), keys |-> UNION { Raw(ss[1], kind) : kind \in Kinds } ]))
Printed == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson(Behaviour))

---------------------------------------------------------------------------
(* what the specification itself guarantees *)
View == ss
Bounded == TLCGet("level") <= Depth
AllWellFormed == \A n \in DOMAIN ss : WellFormed(ss[n]) /\ NamesOK(ss[n])
(* every network whose loops close is satisfied, as long as no level is moved by hand *)
ByHand == {"setE", "setE0", "nudgeE"}
NetworksHold == (Kinds \cap ByHand = {}) => \A n \in DOMAIN ss : \A C \in Networks(ss[n]) :
                   C \cap ss[n].loose = {} => Satisfied(ss[n], ss[n].E, C)
LayoutHolds == \A n \in DOMAIN ss : \A d \in {1, 2} : LayoutOK(ss[n], ss[n].dg[d])
Barycentre == \A n \in DOMAIN ss : BarycentreHolds(ss[n])
(* steps that do not move a level by hand: a level moves only with its network, the network's anchor
   stays, and so does every satisfied network that the step leaves as it was *)
SameNet(s, t, C) == C \in Networks(t) /\ \A k \in SetEdges(t) : k[1] \in C => k \in SetEdges(s) /\ s.tr[k] = t.tr[k]
StepStays(s, t) ==
    /\ \A l \in Ids(s) : s.E[l] # t.E[l] => \E C \in Networks(t) : l \in C
    /\ \A C \in Networks(t) : s.E[Anchor(s, C)] = t.E[Anchor(s, C)]
    /\ \A C \in Networks(s) : (SameNet(s, t, C) /\ Satisfied(s, s.E, C)) => \A l \in C : s.E[l] = t.E[l]
    /\ s.fixed \subseteq t.fixed
AnchorsStay == [][ (Kinds \cap ByHand = {} /\ DOMAIN ss = DOMAIN ss') => \A n \in DOMAIN ss : StepStays(ss[n], ss'[n]) ]_vars
=============================================================================
