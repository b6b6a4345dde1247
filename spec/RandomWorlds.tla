---------------------------- MODULE RandomWorlds ----------------------------
(* Worlds drawn at random: nuclear spin, levels with any momenta, parities,
   energies, constants and aliases, any of them in the atom at the start in any
   order and joined by any transitions.  Drawn once per run of TLC, by its seed. *)
EXTENDS WorldDefs, Quantum

Draw(S) == {RandomElement(S)}
(* configurations, each with the terms that go with it *)
Plain == {"2S", "2P", "2D", "1S", "3P", "4F", "1K"}
Names == << [c |-> "6s", t |-> Plain], [c |-> "5d", t |-> Plain], [c |-> "6p", t |-> Plain],
            [c |-> "4f13(2F*<7/2>).5d.6s(3D)", t |-> {"3[3/2]", "3[7/2]", "1[5/2]"}],
            [c |-> "4f13(2F*<7/2>)5d6s(3D<2>)", t |-> {"(7/2,2)", "(7/2,3)"}] >>
LevelAliases == << "g", "D", "br acket", "P one", "x y z" >>
Slots == 0..7
Constant(S, ok) == IF ok THEN S ELSE {RZero}

(* momenta left for a level of that configuration and term; levels often differ only in J, or in J and the term *)
Left(par, maxj, r, c, t) == { x \in 0..maxj : (x + par) % 2 = 0 /\ \A k \in DOMAIN r : <<r[k].c, r[k].t, r[k].j>> # <<c, t, x>> }
Sharing(l) == {l, IF l > 3 THEN l - 2 ELSE l, IF l < 3 THEN 3 ELSE l}
RandomLevel(l, i, par, slot, maxj, r) ==
    UNION { UNION { UNION { UNION { { LvX(c, t, j, p, 70000 * slot + off, A, B, C, g, al)
                      : A \in Draw(Constant({Q(12), Q(4), Q(-4), R(7, 3), RZero}, j > 0)),
                        B \in Draw(Constant({RZero, Q(24), Q(-12), R(1, 2)}, j > 1)),
                        C \in Draw(Constant({RZero, RZero, Q(8), R(-1, 7)}, j > 2)) }
                    : j \in Draw(Left(par, maxj, r, c, t)) }
                  : c \in { IF Left(par, maxj, r, Names[n].c, t) = {} THEN "8d" ELSE Names[n].c } }
                : t \in { x \o (IF p = -1 THEN "*" ELSE "") : x \in Draw(Names[n].t) } }
            : p \in Draw({1, -1}), n \in Draw(Sharing(l)),
              g \in Draw({Q(1), Q(2), R(2, 3), R(4, 3), R(-1, 2), R(6, 5)}), off \in Draw({0, 1000, 7000, 15001, 21500}),
              al \in Draw({"", "", LevelAliases[l]}) }
RECURSIVE RandomLevels(_, _, _, _, _)
RandomLevels(n, i, par, free, maxj) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION { UNION { { Append(r, x) : x \in RandomLevel(n, i, par, s, maxj, r) } : r \in RandomLevels(n - 1, i, par, free \ {s}, maxj) } : s \in Draw(free) }
(* some of the indices, at least two, in some order *)
RECURSIVE SomeOf(_, _)
SomeOf(S, n) == IF n = 0 THEN {<<>>} ELSE UNION { { <<x>> \o r : r \in SomeOf(S \ {x}, n - 1) } : x \in Draw(S) }

(* transitions given at the start: at most one of them has its frequency assigned *)
Joinable(lv, q, selfs) == { k \in { <<q[a], q[b]>> : a, b \in DOMAIN q } : (selfs \/ k[1] # k[2])
    /\ AnyType(FineTypes(lv[k[1]].j, lv[k[1]].p, lv[k[2]].j, lv[k[2]].p, k[1] = k[2])) }
GapOf(lv, k) == RAbs(RSub(lv[k[1]].e, lv[k[2]].e))
Alike(k, m) == {k[1], k[2]} = {m[1], m[2]}
RECURSIVE RandomTrans(_, _, _)
RandomTrans(lv, K, n) ==
    IF n = 0 \/ K = {} THEN {<<>>}
    ELSE UNION { UNION { { Append(r, T0(k[1], k[2], A)) : r \in RandomTrans(lv, { m \in K : ~Alike(k, m) }, n - 1) }
                         : A \in Draw({Q(1), Q(20), R(1, 4), Q(7), <<>>}) } : k \in Draw(K) }
Assigned(lv, tr) == IF tr = <<>> \/ tr[1].a = tr[1].b THEN tr
                    ELSE [tr EXCEPT ![1] = [@ EXCEPT !.sf = VU(RAdd(GapOf(lv, <<tr[1].a, tr[1].b>>), Q(110)))]]

(* rows of a table of transitions *)
RECURSIVE RandomRows(_, _, _)
RandomRows(lv, K, n) ==
    IF n = 0 \/ K = {} THEN {<<>>}
    ELSE UNION { UNION { { Append(r, Row(k[1], k[2], f, A)) : r \in RandomRows(lv, { m \in K : ~Alike(k, m) }, n - 1) }
                         \cup { << Row(k[1], k[2], <<>>, Q(5)), Row(k[1], k[2], f, A) >> : z \in Draw({ {}, {}, {1} }) \cap {{1}} }      \* the last row of a pair counts
                         : A \in Draw({Q(1), Q(7), <<>>}), f \in Draw({<<>>, <<>>, VU(RAdd(GapOf(lv, k), R(50, 1)))}) } : k \in Draw(K) }

RandomWorld(n, spins, maxj, selfs, vals) ==
    CHOOSE w \in UNION { UNION { UNION { { [ World(i, b, unit, lv, q, IF fix THEN Assigned(lv, tr) ELSE tr, vals)
                                             EXCEPT !.rows = {r1, r2} ]
              : tr \in RandomTrans(lv, Joinable(lv, q, selfs), m), fix \in Draw({TRUE, FALSE}),
                r1 \in RandomRows(lv, { k \in (1..n) \X (1..n) : k[1] # k[2] }, 2), r2 \in RandomRows(lv, { k \in (1..n) \X (1..n) : k[1] # k[2] }, 3) }
            : q \in SomeOf(1..n, size), m \in Draw(1..3) }
        : lv \in RandomLevels(n, i, par, Slots, maxj), size \in Draw(2..n) }
      : i \in Draw(spins), par \in Draw({0, 1}), b \in Draw({0, 1, 2, 5, 10, -3}), unit \in Draw({"1e9", "7e8", "1.3e9", "1.1e6"}) } : TRUE

RHier == << RandomWorld(2, 0..6, 7, FALSE, HierVals), RandomWorld(3, 0..3, 5, FALSE, HierVals) >>
RTied == << RandomWorld(4, 0..2, 5, FALSE, HierVals), RandomWorld(3, 0..3, 5, FALSE, HierVals) >>
RNet == << RandomWorld(5, {0, 1}, 3, FALSE, NetVals), RandomWorld(5, {0}, 7, FALSE, NetVals) >>
RKeys == << RandomWorld(4, 0..3, 5, TRUE, KeyVals), RandomWorld(4, {0}, 8, TRUE, KeyVals) >>
RCont == << RandomWorld(5, 0..2, 5, TRUE, KeyVals), RandomWorld(4, 0..1, 5, TRUE, KeyVals) >>
RComp == << RandomWorld(4, 0..2, 5, TRUE, CompVals), RandomWorld(3, 0..5, 6, TRUE, CompVals) >>
RDecay == << RandomWorld(5, 0..1, 5, TRUE, DecVals), RandomWorld(4, 0..3, 5, TRUE, DecVals) >>
RPop == << RandomWorld(5, 0..2, 9, TRUE, PopVals), RandomWorld(5, {0}, 9, TRUE, PopVals) >>
RSave == << RandomWorld(3, 0..3, 5, TRUE, KeyVals), RandomWorld(4, 0..1, 5, TRUE, KeyVals) >>
RCsv == << RandomWorld(4, 1..4, 6, FALSE, CsvVals), RandomWorld(3, 0..5, 6, FALSE, CsvVals) >>
RDraw == << RandomWorld(3, 0..3, 5, FALSE, HierVals), RandomWorld(4, 0..1, 5, FALSE, HierVals) >>
=============================================================================
