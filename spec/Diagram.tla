------------------------------ MODULE Diagram ------------------------------
(* Grotrian diagrams: levels and transitions that were put on a diagram, and the
   lines, boxes and arrows that it shows when it is rendered.

   Horizontal positions are rationals.  A height is  base + y1 + hs * mag : the energy
   of the manifold (or y0), the shift y1, and hs times the magnified shift mag, an energy. *)
EXTENDS AtomCore

(* the options of a level, and their defaults; <<>> stands for "follows the level" *)
Default == [ W |-> R(4, 5), x0 |-> <<>>, x1 |-> RZero, y0 |-> <<>>, y1 |-> RZero, off |-> RZero, sq |-> -1,
             hs |-> 10000, zs |-> 5, b |-> ROne, a |-> ROne, pad |-> R(1, 20), box |-> "none", h |-> R(1, 20), lw |-> 2, color |-> 0 ]

Count(s, l) == Cardinality(HfPaths(s, l))
LowF(s, l) == Abs(I2(s) - LJ(s, l))
HighF(s, l) == I2(s) + LJ(s, l)
Rank1(s) == LowestOf(s, s.in)
(* as many lines as fit side by side into the full width *)
Squeeze(s, l, o) == 1 + CASE o.sq = -1 -> HighF(s, l) [] o.sq = -2 -> HighF(s, Rank1(s)) [] OTHER -> o.sq
Span(s, l) == RAbs(RSub(Shift(s, <<l, HighF(s, l)>>)[1], Shift(s, <<l, LowF(s, l)>>)[1]))
Place(s, p) == (p[2] - LowF(s, p[1])) \div 2
(* equally spaced lines: as far apart on average as the outermost ones are in reality *)
Even0(s, p) == LET n == Count(s, p[1]) IN RMul(R(2 * Place(s, p) - n, 2 * n), Span(s, p[1]))
Magnified(s, p, o) ==
    LET f == SubSeq(p, 1, 2)
        real == IF Len(p) = 2 THEN Shift(s, p) ELSE VAdd(Shift(s, f), VScale(Q(o.zs), Shift(s, p)))
    IN IF Len(p) = 1 THEN VZero ELSE VAdd(VScale(o.b, real), VU(RMul(RSub(ROne, o.b), Even0(s, f))))
Home(s, p, o) == RAdd(IF o.x0 = <<>> THEN R(LJ(s, p[1]), 2) ELSE o.x0[1], o.x1)
(* the share of the width that is covered when all places of a row are taken *)
Filled == R(9, 10)
Places(s, l, o) == Squeeze(s, l, o)
ZWidth(s, l, o) == RMul(o.W, RMul(Filled, R(1, Places(s, l, o))))
ZSpace(s, l, o) == RMul(o.W, RMul(RSub(ROne, Filled), R(1, Max2(Places(s, l, o) - 1, 1))))
Center(s, p, o) ==
    CASE Len(p) = 1 -> Home(s, p, o)
      [] Len(p) = 2 -> RAdd(Home(s, p, o), RMul(RScale(Place(s, p), o.off), o.W))
      [] OTHER -> RAdd(Home(s, p, o), RMul(R(p[3], 2), RAdd(ZWidth(s, p[1], o), ZSpace(s, p[1], o))))
Width(s, p, o) ==
    CASE Len(p) = 1 -> o.W
      [] Len(p) = 2 -> RAdd(RMul(RSub(ROne, o.a), RMul(o.W, RSub(ROne, RScale(Count(s, p[1]) - 1, o.off)))),
                            RMul(o.a, RMul(o.W, R(p[2] + 1, Squeeze(s, p[1], o)))))
      [] OTHER -> ZWidth(s, p[1], o)

(* one row per line; a row that is not shown is there for its box only, around the rows named by over *)
Row1(s, p, o, show, over) ==
    [ p |-> p, show |-> show, over |-> over, x |-> Center(s, p, o), w |-> Width(s, p, o), base |-> IF o.y0 = <<>> THEN s.E[p[1]] ELSE <<>>,
      mag |-> Magnified(s, p, o), o |-> o ]
Inner(o) == [o EXCEPT !.box = "none"]
PathsIn(q) == { q[n].p : n \in DOMAIN q }
ZRows(s, f, o) ==
    LET q == [ n \in 1..(f[2] + 1) |-> Row1(s, <<f[1], f[2], 2 * (n - 1) - f[2]>>, Inner(o), TRUE, {}) ]
    IN q \o <<Row1(s, f, o, FALSE, PathsIn(q))>>
FSeq(s, l) == Ascend(Fs(I2(s), LJ(s, l)))
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
RowsOf(s, pr) ==
    LET p == pr.p
        o == pr.o
        l == p[1]
        fs == FSeq(s, l)
        under(q) == q \o <<Row1(s, <<l>>, o, FALSE, PathsIn(q))>>
    IN CASE pr.st = "g" -> <<Row1(s, <<l>>, o, TRUE, {})>>
         [] pr.st = "hf" /\ Len(p) = 1 -> under([ n \in DOMAIN fs |-> Row1(s, <<l, fs[n]>>, Inner(o), TRUE, {}) ])
         [] pr.st = "z" /\ Len(p) = 1 -> under(Concat([ n \in DOMAIN fs |-> ZRows(s, <<l, fs[n]>>, Inner(o)) ]))
         [] pr.st = "z" /\ Len(p) = 2 -> ZRows(s, p, o)
         [] OTHER -> <<Row1(s, p, o, TRUE, {})>>
RowsFor(s, d) == Concat([ n \in DOMAIN d.pr |-> RowsOf(s, d.pr[n]) ])

(* the row whose box an arrow to path p ends on: its own, or its parent's, or its manifold's *)
DrawnPaths(s, d) == PathsIn(RowsFor(s, d))
EndFor(D, p) == IF p \in D THEN p ELSE IF Len(p) = 3 /\ SubSeq(p, 1, 2) \in D THEN SubSeq(p, 1, 2)
                ELSE IF SubSeq(p, 1, 1) \in D THEN SubSeq(p, 1, 1) ELSE <<>>
ArrowsFor(s, d) == LET D == DrawnPaths(s, d) IN
    [ n \in DOMAIN d.ar |-> [ from |-> EndFor(D, d.ar[n].a), to |-> EndFor(D, d.ar[n].b), o |-> d.ar[n].o ] ]

(* what the layout promises, whatever the numbers are *)
Left(r) == RSub(r.x, RMul(R(1, 2), r.w))
Right(r) == RAdd(r.x, RMul(R(1, 2), r.w))
Shown(q) == { n \in DOMAIN q : q[n].show }
LayoutOK(s, d) ==
    LET q == RowsFor(s, d) IN
    \A n \in Shown(q), m \in Shown(q) :
        LET r == q[n] t == q[m] IN
        /\ RLt(RZero, r.w)
        \* Zeeman lines of one row are in order and apart, and fit into the width
        /\ (Len(r.p) = 3 /\ Len(t.p) = 3 /\ SubSeq(r.p, 1, 2) = SubSeq(t.p, 1, 2) /\ r.p[3] < t.p[3]) =>
              /\ RLt(Right(r), Left(t))
              /\ r.p[2] < Squeeze(s, r.p[1], r.o) => RLe(RSub(Right(t), Left(r)), r.o.W)
        \* hyperfine lines are in proportion to their number of sublevels
        /\ (Len(r.p) = 2 /\ Len(t.p) = 2 /\ r.p[1] = t.p[1] /\ r.o.a = ROne) => RScale(t.p[2] + 1, r.w) = RScale(r.p[2] + 1, t.w)
        /\ (Len(r.p) = 2 /\ r.o.a = ROne /\ r.o.sq = -1 /\ r.p[2] = HighF(s, r.p[1])) => r.w = r.o.W
        \* the real spacing shows the shifts, the schematic one is even
        /\ (Len(r.p) = 2 /\ r.o.b = ROne) => r.mag = Shift(s, r.p)
        /\ (Len(r.p) = 2 /\ Len(t.p) = 2 /\ r.p[1] = t.p[1] /\ r.o.b = RZero /\ t.p[2] = r.p[2] + 2) =>
              RScale(Count(s, r.p[1]), RSub(t.mag[1], r.mag[1])) = Span(s, r.p[1])
=============================================================================
