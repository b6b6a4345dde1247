------------------------------ MODULE AtomCore ------------------------------
(* The Atom: its levels, sublevels, transitions, components, aliases, energies
   and the network of assigned transition frequencies, as a state machine.

   A world fixes what cannot change: the nuclear spin and the level objects that
   exist (in the atom or not).  A state s is a record; every operation of the
   public interface is a record op with an effect  Apply(s, op).

   Paths.  A level is <<l>>, a hyperfine level <<l, f>>, a Zeeman level
   <<l, f, m>> (l an index into the world's levels, f and m doubled).
   A transition or component is <<lower path, upper path>>.
   Energies are vectors <<x, y>> = x units + y muB*gauss, exact rationals. *)
EXTENDS Quantum, Json

CONSTANT Worlds

WorldSlot == 9         \* TLC register holding the evaluated worlds
ASSUME TLCSet(WorldSlot, TLCEval(Worlds))
WorldAt(n) == TLCGet(WorldSlot)[n]
W(s) == WorldAt(s.w)
Ids(s) == 1..Len(W(s).lv)
LJ(s, l) == W(s).lv[l].j
I2(s) == W(s).i

PairsOf(w) == { k \in (1..Len(w.lv)) \X (1..Len(w.lv)) : k[1] <= k[2] }
Key(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
PairTypes(w, k) == FineTypes(w.lv[k[1]].j, w.lv[k[1]].p, w.lv[k[2]].j, w.lv[k[2]].p, k[1] = k[2])

(* All components of every possible transition of every world: computed once.
   Worlds with levels beyond the range of the Wigner tables are used only where
   components play no part (they need J alone, not the strengths). *)
InTables(w, k) == w.lv[k[1]].j + w.lv[k[2]].j + 2 * w.i + 4 <= 62
CompOf(w, k) == IF ~InTables(w, k) THEN {} ELSE
    LET j1 == w.lv[k[1]].j
        j2 == w.lv[k[2]].j
        t == PairTypes(w, k)
        same == k[1] = k[2]
    IN { LET ht == HfTypes(w.i, j1, j2, t, p[1], p[2])
         IN [ f |-> p, ty |-> ht, st |-> HfStrength(w.i, j1, j2, t, p[1], p[2]),
              z |-> { [ m |-> q, ty |-> ZTypes(p[1], p[2], ht, q[1], q[2]),
                        st |-> ZStrength(p[1], p[2], ht, q[1], q[2]) ]
                      : q \in ZPairs(p[1], p[2], ht, same /\ p[1] = p[2]) } ]
         : p \in HfPairs(w.i, j1, j2, t, same) }
CompSlot == 8
ASSUME TLCSet(CompSlot, TLCEval([n \in DOMAIN TLCGet(WorldSlot) |->
    TLCEval([k \in PairsOf(WorldAt(n)) |-> TLCEval(CompOf(WorldAt(n), k))])]))
Comps(s, k) == TLCGet(CompSlot)[s.w][k]

---------------------------------------------------------------------------
(* Names *)
LevelName(w, p) ==
    LET v == w.lv[p[1]]
        base == v.c \o " " \o v.t \o FracText(v.j)
    IN IF Len(p) = 1 THEN base
       ELSE IF Len(p) = 2 THEN base \o " F=" \o FracText(p[2])
       ELSE base \o " F=" \o FracText(p[2]) \o " mF=" \o FracText(p[3])
Label(w, p) == IF Len(p) = 1 THEN w.lv[p[1]].t \o FracText(w.lv[p[1]].j)
               ELSE IF Len(p) = 2 THEN "F=" \o FracText(p[2]) ELSE "mF=" \o FracText(p[3])

ZPathsOf(p) == { <<p[1], p[2], m>> : m \in Ms(p[2]) }
HfPathsOf(w, l) == { <<l, f>> : f \in Fs(w.i, w.lv[l].j) }
SubPathsOf(w, l) == {<<l>>} \cup HfPathsOf(w, l) \cup UNION { ZPathsOf(p) : p \in HfPathsOf(w, l) }
(* computed once per world: the paths below every level, and the weights in their shifts *)
PathSlot == 10
ASSUME TLCSet(PathSlot, TLCEval([n \in DOMAIN TLCGet(WorldSlot) |-> LET w == WorldAt(n) IN
    TLCEval([l \in 1..Len(w.lv) |->
        [ hf |-> TLCEval(HfPathsOf(w, l)), all |-> TLCEval(SubPathsOf(w, l)),
          name |-> TLCEval([p \in SubPathsOf(w, l) |-> LevelName(w, p)]),
          k |-> TLCEval([f \in Fs(w.i, w.lv[l].j) |-> << DipoleK(w.i, w.lv[l].j, f), QuadK(w.i, w.lv[l].j, f),
                                OctK(w.i, w.lv[l].j, f), GFactor(w.i, w.lv[l].j, f) >>]) ]])]))
HfPaths(s, l) == TLCGet(PathSlot)[s.w][l].hf
SubPaths(s, l) == TLCGet(PathSlot)[s.w][l].all
Name(s, p) == TLCGet(PathSlot)[s.w][p[1]].name[p]
Weights(s, p) == TLCGet(PathSlot)[s.w][p[1]].k[p[2]]
AllPaths(s) == UNION { SubPaths(s, l) : l \in s.in }
IsPath(s, p) == p[1] \in Ids(s) /\ p \in SubPaths(s, p[1])

---------------------------------------------------------------------------
(* Energies *)
(* the g factor of a hyperfine level: its own, if it was given one, or that of its level *)
GOf(s, p) == IF p \in DOMAIN s.gf THEN s.gf[p] ELSE RMul(s.g[p[1]], Weights(s, p)[4])
QuadOf(s, p) == IF p \in DOMAIN s.qz THEN s.qz[p] ELSE RZero
Shift(s, p) ==
    IF Len(p) = 1 THEN s.E[p[1]]
    ELSE IF Len(p) = 2 THEN LET k == Weights(s, p) hf == s.hf[p[1]]      \* HfShift
                            IN VU(RAdd(RAdd(RMul(hf[1], k[1]), RMul(hf[2], k[2])), RMul(hf[3], k[3])))
    ELSE << RScale(s.b * s.b, QuadOf(s, p)), RMul(GOf(s, <<p[1], p[2]>>), R(p[3] * s.b, 2)) >>   \* ZShift
En(s, p) == IF Len(p) = 1 THEN s.E[p[1]]
            ELSE IF Len(p) = 2 THEN VAdd(s.E[p[1]], Shift(s, p))
            ELSE VAdd(VAdd(s.E[p[1]], Shift(s, <<p[1], p[2]>>)), Shift(s, p))

---------------------------------------------------------------------------
(* Transitions.  s.tr maps Key(a, b) to [lo, up, sf, A, al]:
   orientation, assigned frequency (or <<>>), A coefficient (or <<>>), own alias *)
Joined(s, a, b) == Key(a, b) \in DOMAIN s.tr
TPath(s, k) == <<<<s.tr[k].lo>>, <<s.tr[k].up>>>>
Gap(s, t) == VSub(En(s, t[2]), En(s, t[1]))      \* upper minus lower, up to sign the frequency

(* the components below a fine transition, as oriented paths *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN Append(SeqOf(S \ {x}), x)
CompPaths(n, k, flip) ==
    LET o(p, q) == IF flip THEN <<q, p>> ELSE <<p, q>>
        C == TLCGet(CompSlot)[n][k]
        hf == TLCEval({ o(<<k[1], c.f[1]>>, <<k[2], c.f[2]>>) : c \in C })
        z == TLCEval(UNION { { o(<<k[1], c.f[1], d.m[1]>>, <<k[2], c.f[2], d.m[2]>>) : d \in c.z } : c \in C })
        q == TLCEval(SeqOf(hf))
        r == TLCEval(SeqOf(z))
    IN [ hf |-> hf, z |-> z, hfq |-> q, zq |-> r, all |-> TLCEval(q \o r) ]
CPathSlot == 11
ASSUME TLCSet(CPathSlot, TLCEval([n \in DOMAIN TLCGet(WorldSlot) |->
    TLCEval([k \in PairsOf(WorldAt(n)) |-> TLCEval([flip \in BOOLEAN |-> CompPaths(n, k, flip)])])]))
CompPathsOf(s, k) == TLCGet(CPathSlot)[s.w][k][s.tr[k].lo # k[1]]
HfComps(s, k) == CompPathsOf(s, k).hf
ZComps(s, k) == CompPathsOf(s, k).z
(* components that join the two sublevels p and q (empty or a singleton set) *)
CompBetween(s, p, q) ==
    LET k == Key(p[1], q[1])
        pp == IF p[1] <= q[1] THEN <<p, q>> ELSE <<q, p>>
        x == pp[1]
        y == pp[2]
        match(u, v, c, d) == (c = u /\ d = v) \/ (k[1] = k[2] /\ c = v /\ d = u)
    IN IF Len(p) = 2
       THEN { c \in Comps(s, k) : match(x[2], y[2], c.f[1], c.f[2]) }
       ELSE UNION { { z \in c.z : \/ c.f = <<x[2], y[2]>> /\ z.m = <<x[3], y[3]>>
                                  \/ k[1] = k[2] /\ c.f = <<y[2], x[2]>> /\ z.m = <<y[3], x[3]>> }
                    : c \in Comps(s, k) }
(* the transition or component joining two levels of the same tier: <<>> or its path *)
Between(s, p, q) ==
    IF Len(p) # Len(q) \/ ~Joined(s, p[1], q[1]) THEN <<>>
    ELSE LET k == Key(p[1], q[1])
         IN IF Len(p) > 1 /\ CompBetween(s, p, q) = {} THEN <<>>
            ELSE IF s.tr[k].lo = p[1] THEN <<p, q>> ELSE <<q, p>>

---------------------------------------------------------------------------
(* Networks of assigned frequencies *)
SetEdges(s) == { k \in DOMAIN s.tr : s.tr[k].sf # <<>> /\ k[1] # k[2] }
RECURSIVE Reach1(_, _)
Reach1(edges, S) == LET T == S \cup { l \in UNION {{k[1], k[2]} : k \in edges} :
                                        \E k \in edges : (l = k[1] /\ k[2] \in S) \/ (l = k[2] /\ k[1] \in S) }
                    IN IF T = S THEN S ELSE Reach1(edges, T)
Network(s, l) == Reach1(SetEdges(s), {l})
Networks(s) == { Network(s, l) : l \in UNION {{k[1], k[2]} : k \in SetEdges(s)} }

LowestOf(s, C) == CHOOSE l \in C : \A m \in C : l = m \/ RLt(s.E[l][1], s.E[m][1])
Anchor(s, C) == LowestOf(s, IF C \cap s.fixed # {} THEN C \cap s.fixed ELSE C)

(* energies of C laid out from the anchor along any spanning tree *)
Layout(s, C) ==
    LET a == Anchor(s, C)
        edges == { k \in SetEdges(s) : k[1] \in C }
        RECURSIVE Grow(_, _)
        Grow(E, placed) ==
            LET front == { k \in edges : (k[1] \in placed) # (k[2] \in placed) }
            IN IF front = {} THEN E
               ELSE LET k == CHOOSE x \in front : TRUE
                        r == s.tr[k]
                        new == IF k[1] \in placed THEN k[2] ELSE k[1]
                        old == IF k[1] \in placed THEN k[1] ELSE k[2]
                        v == IF new = r.up THEN VAdd(E[old], r.sf) ELSE VSub(E[old], r.sf)
                    IN Grow(TLCEval([E EXCEPT ![new] = v]), placed \cup {new})
    IN Grow(s.E, {a})
Satisfied(s, E, C) == \A k \in SetEdges(s) : k[1] \in C => VSub(E[s.tr[k].up], E[s.tr[k].lo]) = s.tr[k].sf
Consistent(s, C) == Satisfied(s, Layout(s, C), C)

(* Lay out the networks in CC.  A network whose loops cannot all hold warns; nothing
   is promised about its levels except the anchor ("loose" levels). *)
RECURSIVE Enforce(_, _, _)
Enforce(s, CC, mine) ==      \* the network with a level of mine must warn if it cannot hold; others may
    IF CC = {} THEN s
    ELSE LET C == CHOOSE x \in CC : TRUE
             ok == Consistent(s, C)
             s2 == [s EXCEPT !.E = (IF ok THEN Layout(s, C) ELSE s.E),
                             !.fixed = @ \cup C,
                             !.loose = IF ok THEN @ \ C ELSE (@ \cup C) \ {Anchor(s, C)},
                             !.warn = IF ok \/ @ = "yes" THEN @ ELSE IF C \cap mine # {} THEN "yes" ELSE "any"]
         IN Enforce(s2, CC \ {C}, mine)

---------------------------------------------------------------------------
(* Operations *)
NoFun == [x \in {} |-> 0]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]

Init0(n) ==
    LET w == WorldAt(n)
        L == 1..Len(w.lv)
    IN [ w |-> n, in |-> {}, la |-> [l \in L |-> w.lv[l].al], al |-> NoFun, tal |-> NoFun,
         E |-> [l \in L |-> VU(w.lv[l].e)], hf |-> [l \in L |-> w.lv[l].hf], g |-> [l \in L |-> w.lv[l].g],
         b |-> w.b, qz |-> NoFun, gf |-> NoFun, ca |-> NoFun, tr |-> NoFun, fixed |-> {}, loose |-> {}, warn |-> "no",
         id |-> [l \in L |-> <<0, 0, 0>>], disk |-> NoFun,
         dg |-> <<[pr |-> <<>>, ar |-> <<>>], [pr |-> <<>>, ar |-> <<>>]>> ]

(* a level is added: only the first time does it bring its own alias along *)
AddLevel(s, l, alias) ==
    LET new == l \notin s.in
        a == IF alias # "" THEN alias ELSE s.la[l]
    IN [s EXCEPT !.in = @ \cup {l},
                 !.la = [@ EXCEPT ![l] = a],
                 !.al = IF a # "" /\ (new \/ alias # "") THEN (a :> <<l>>) @@ @ ELSE @]
(* re-adding a removed level whose alias now belongs to another level is left open *)
AddLevelOK(s, l) == l \in s.in \/ s.la[l] = "" \/ s.la[l] \notin DOMAIN s.al

DropTransitions(s, K) ==
    LET gone(t) == Key(t[1][1], t[2][1]) \in K
    IN [s EXCEPT !.tr = Drop(@, K), !.tal = Drop(@, { a \in DOMAIN @ : gone(@[a]) }), !.ca = Drop(@, { t \in DOMAIN @ : gone(t) })]
DelLevel(s, l) ==
    LET s1 == DropTransitions(s, { k \in DOMAIN s.tr : l \in {k[1], k[2]} })
    IN [s1 EXCEPT !.in = @ \ {l}, !.al = Drop(@, { a \in DOMAIN @ : @[a][1] = l })]

(* which of the levels named first and second is the lower one *)
Lower(s, a, b) == IF RLt(s.E[a][1], s.E[b][1]) THEN a ELSE b
NewTr(s, a, b, sf, A, al) ==
    LET lo == Lower(s, a, b)
    IN [lo |-> lo, up |-> IF lo = a THEN b ELSE a, sf |-> sf, A |-> A, al |-> al]
AddTrans(s, a, b, sf, A, alias) ==
    LET k == Key(a, b)
        s1 == AddLevel(AddLevel(s, a, ""), b, "")
        s2 == [s1 EXCEPT !.tr = (k :> NewTr(s1, a, b, sf, A, alias)) @@ @,
                         !.ca = Drop(@, { t \in DOMAIN @ : Key(t[1][1], t[2][1]) = k }),
                         !.tal = IF alias # "" THEN (alias :> <<<<Lower(s, a, b)>>, <<IF Lower(s, a, b) = a THEN b ELSE a>>>>) @@ @ ELSE @]
    IN IF sf # <<>> THEN Enforce(s2, Networks(s2), {a}) ELSE s2

AssignEnergy(s, p, v) == [s EXCEPT !.E = [@ EXCEPT ![p[1]] = VAdd(@, VSub(v, En(s, p)))]]
(* a frequency assigned to a component shifts the fine transition by the same amount *)
AssignFreq(s, t, v) ==
    LET k == Key(t[1][1], t[2][1])
        f == VAdd(Gap(s, TPath(s, k)), VSub(v, Gap(s, t)))
        s1 == [s EXCEPT !.tr = [@ EXCEPT ![k] = [@ EXCEPT !.sf = f]]]
    IN Enforce(s1, {Network(s1, k[1])}, {k[1]})

Populate(s, allowed) ==
    LET K == { k \in (s.in \X s.in) : /\ k[1] < k[2] /\ k \notin DOMAIN s.tr
                                      /\ \E n \in 1..3 : allowed[n] /\ PairTypes(W(s), k)[n] }
    IN [s EXCEPT !.tr = [k \in K |-> NewTr(s, k[1], k[2], <<>>, <<>>, "")] @@ @]
PopulateInternal(s) ==
    LET K == { <<l, l>> : l \in s.in } \ DOMAIN s.tr
    IN [s EXCEPT !.tr = [k \in K |-> NewTr(s, k[1], k[2], <<>>, <<>>, "")] @@ @]
RECURSIVE PopulateRows(_, _)
PopulateRows(s, rows) ==
    IF rows = <<>> THEN s
    ELSE LET r == Head(rows)
             ok == r.l \in s.in /\ r.u \in s.in
         IN PopulateRows(IF ok THEN AddTrans(s, r.l, r.u, r.sf, r.A, "") ELSE s, Tail(rows))

(* Hyperfine tables on disk: constants of levels, with where each constant came from.
   An identity says which assignment produced a constant (0: the level's own from the start,
   -1: zero written to a table); constants of one identity are equal to the last bit. *)
ZeroId == -1
FileRow(s, l, o) ==
    IF o.blank THEN [v |-> <<RZero, RZero, RZero>>, id |-> <<ZeroId, ZeroId, ZeroId>>]
    ELSE [v |-> [s.hf[l] EXCEPT ![1] = IF @ = RZero THEN o.d ELSE @],
          id |-> [s.id[l] EXCEPT ![1] = IF s.hf[l][1] # RZero THEN @ ELSE IF o.d = RZero THEN ZeroId ELSE o.id]]
WriteCsv(s, o) == [s EXCEPT !.disk = (o.file :> [l \in s.in |-> FileRow(s, l, o)]) @@ @]
HandCsv(s, o) == [s EXCEPT !.disk = (o.file :> [l \in o.rows |-> [v |-> o.v, id |-> <<o.id, o.id, o.id>>]]) @@ @]
ApplyCsv(s, file) ==
    LET T == s.disk[file]
        on == { l \in DOMAIN T : l \in s.in }
    IN [s EXCEPT !.hf = [l \in DOMAIN @ |-> IF l \in on THEN T[l].v ELSE @[l]],
                 !.id = [l \in DOMAIN @ |-> IF l \in on THEN T[l].id ELSE @[l]]]

Apply1(s, o) ==
    CASE o.op = "addL"   -> AddLevel(s, o.l, o.alias)
      [] o.op = "delL"   -> DelLevel(s, o.l)
      [] o.op = "aliasL" -> [s EXCEPT !.al = (o.alias :> o.p) @@ @,
                                      !.la = IF Len(o.p) = 1 THEN [@ EXCEPT ![o.p[1]] = o.alias] ELSE @]
      [] o.op = "addT"   -> AddTrans(s, o.a, o.b, o.sf, o.A, o.alias)
      [] o.op = "againT" -> IF s.tr[Key(o.a, o.b)].sf # <<>> THEN Enforce(s, Networks(s), {}) ELSE s
      [] o.op = "delT"   -> DropTransitions(s, {Key(o.a, o.b)})
      [] o.op = "aliasT" -> [s EXCEPT !.tal = (o.alias :> o.t) @@ @]
      [] o.op = "setE"   -> AssignEnergy(s, o.p, o.v)
      [] o.op = "setHf"  -> [s EXCEPT !.hf = [@ EXCEPT ![o.l] = [@ EXCEPT ![o.n] = o.v]],
                                      !.id = [@ EXCEPT ![o.l] = [@ EXCEPT ![o.n] = o.id]]]
      [] o.op = "setG"   -> [s EXCEPT !.g = [@ EXCEPT ![o.l] = o.v]]
      [] o.op = "setB"   -> [s EXCEPT !.b = o.v]
      [] o.op = "setGF"  -> [s EXCEPT !.gf = (o.p :> o.v) @@ @]
      [] o.op = "setQ"   -> [s EXCEPT !.qz = (o.p :> o.v) @@ @]
      [] o.op = "setF"   -> AssignFreq(s, o.t, o.v)
      [] o.op = "setA"   -> [s EXCEPT !.tr = [@ EXCEPT ![Key(o.a, o.b)] = [@ EXCEPT !.A = o.v]]]
      [] o.op = "setAC"  -> [s EXCEPT !.ca = IF o.v = <<>> THEN Drop(@, {o.t}) ELSE (o.t :> o.v) @@ @]
      [] o.op = "pop"    -> Populate(s, o.allowed)
      [] o.op = "popInt" -> PopulateInternal(s)
      [] o.op = "popDf"  -> PopulateRows(s, o.rows)
      [] o.op = "csvW"   -> WriteCsv(s, o)
      [] o.op = "csvHand" -> HandCsv(s, o)
      [] o.op = "csvA"   -> ApplyCsv(s, o.file)
      [] o.op = "dgLevel" -> [s EXCEPT !.dg = [@ EXCEPT ![o.d] = [@ EXCEPT !.pr = Append(@, [p |-> o.p, st |-> o.st, o |-> o.o])]]]
      [] o.op = "dgArrow" -> [s EXCEPT !.dg = [@ EXCEPT ![o.d] = [@ EXCEPT !.ar = Append(@, [a |-> o.a, b |-> o.b, o |-> o.o])]]]
      [] OTHER           -> s              \* reads, lookups and failing calls change nothing
(* the atom read back from a file: level objects outside the atom are not in the file *)
Loaded(s) ==
    LET w == W(s)
        out == Ids(s) \ s.in
        pick(f, g) == [l \in Ids(s) |-> IF l \in out THEN g[l] ELSE f[l]]
        i == Init0(s.w)
    IN [s EXCEPT !.la = pick(@, i.la), !.E = pick(@, i.E), !.hf = pick(@, i.hf), !.id = pick(@, i.id), !.g = pick(@, i.g),
                 !.qz = Drop(@, { p \in DOMAIN @ : p[1] \in out }), !.gf = Drop(@, { p \in DOMAIN @ : p[1] \in out }), !.fixed = @ \ out, !.loose = @ \ out, !.warn = "no", !.dg = i.dg]
(* s.dg: the levels and transitions put on two diagrams, see Diagram *)
Apply(s, o) == TLCEval(Apply1([s EXCEPT !.warn = "no"], o))

---------------------------------------------------------------------------
(* Level lookup.  A key is [ty, v, rest]: ty "s" (text v), "n" (rank v) or
   "o" (the level object at path v), followed by nested indexing with labels. *)
RECURSIVE RankSeq(_, _)
RankSeq(s, S) == IF S = {} THEN <<>> ELSE LET l == LowestOf(s, S) IN <<l>> \o RankSeq(s, S \ {l})
Ranks(s) == RankSeq(s, s.in)

MJName(s, p) == LET v == W(s).lv[p[1]] IN v.c \o " " \o v.t \o FracText(v.j) \o " mJ=" \o FracText(p[3])
(* a miss is a path of length zero *)
Find(s, S) == IF S = {} THEN <<>> ELSE CHOOSE p \in S : TRUE
LookupText(s, key) ==
    IF key \in DOMAIN s.al THEN s.al[key]
    ELSE Find(s, { p \in AllPaths(s) : Name(s, p) = key \/ (I2(s) = 0 /\ Len(p) = 3 /\ MJName(s, p) = key) })
LookupChild(s, p, label) ==
    IF Len(p) = 1 THEN Find(s, { q \in SubPaths(s, p[1]) :
            \/ Len(q) = 2 /\ Label(W(s), q) = label
            \/ I2(s) = 0 /\ Len(q) = 3 /\ label = "mJ=" \o FracText(q[3]) })
    ELSE IF Len(p) = 2 THEN Find(s, { q \in ZPathsOf(p) : Label(W(s), q) = label })
    ELSE <<>>
RECURSIVE LookupRest(_, _, _)
LookupRest(s, p, rest) == IF p = <<>> \/ rest = <<>> THEN p ELSE LookupRest(s, LookupChild(s, p, Head(rest)), Tail(rest))
RankOK(s, n) == LET c == Cardinality(s.in) IN -c <= n /\ n < c
LookupBase(s, key) ==
    CASE key.ty = "n" -> (LET r == Ranks(s) IN IF ~RankOK(s, key.v) THEN <<>>
                            ELSE <<r[(IF key.v < 0 THEN Len(r) + key.v ELSE key.v) + 1]>>)
      [] key.ty = "o" -> key.v
      [] OTHER -> LookupText(s, key.v)
Lookup(s, key) == LookupRest(s, LookupBase(s, key), key.rest)
LookupErr(s, key) == IF key.ty = "n" /\ ~RankOK(s, key.v) THEN "IndexError" ELSE "KeyError"

(* Transition lookup by a pair of level keys *)
LookupPair(s, ka, kb) ==
    LET p == Lookup(s, ka)
        q == Lookup(s, kb)
    IN IF p = <<>> \/ q = <<>> THEN <<>> ELSE Between(s, p, q)
PairErr(s, ka, kb) == LET p == Lookup(s, ka) IN
    IF p = <<>> THEN LookupErr(s, ka) ELSE IF Lookup(s, kb) = <<>> THEN LookupErr(s, kb) ELSE "KeyError"
(* nested indexing of a transition with (lower, upper) labels *)
TChild(s, t, labels) ==
    LET p == LookupChild(s, t[1], labels[1])
        q == LookupChild(s, t[2], labels[2])
    IN IF p = <<>> \/ q = <<>> \/ Len(p) # Len(t[1]) + 1 \/ Len(q) # Len(t[2]) + 1 THEN <<>> ELSE Between(s, p, q)
RECURSIVE TRest(_, _, _)
TRest(s, t, rest) == IF t = <<>> \/ rest = <<>> THEN t ELSE TRest(s, TChild(s, t, Head(rest)), Tail(rest))

---------------------------------------------------------------------------
(* A coefficients of components, decays *)
TypesOf(s, t) ==
    LET k == Key(t[1][1], t[2][1])
        sw == s.tr[k].lo # k[1]
        p == IF sw THEN t[2] ELSE t[1]
        q == IF sw THEN t[1] ELSE t[2]
        hf == CHOOSE c \in Comps(s, k) : c.f = <<p[2], q[2]>>
    IN IF Len(p) = 2 THEN hf.ty ELSE (CHOOSE c \in hf.z : c.m = <<p[3], q[3]>>).ty
StrengthOf(s, t) ==
    LET k == Key(t[1][1], t[2][1])
        sw == s.tr[k].lo # k[1]
        p == IF sw THEN t[2] ELSE t[1]
        q == IF sw THEN t[1] ELSE t[2]
        hf == CHOOSE c \in Comps(s, k) : c.f = <<p[2], q[2]>>
    IN IF Len(p) = 2 THEN hf.st ELSE (CHOOSE c \in hf.z : c.m = <<p[3], q[3]>>).st
UpT(t) == <<SubSeq(t[1], 1, Len(t[1]) - 1), SubSeq(t[2], 1, Len(t[2]) - 1)>>
RECURSIVE AOf(_, _)
AOf(s, t) ==       \* <<>> when it has none; a component has its own, if it was given one, or its share of its parent's
    IF Len(t[1]) = 1 THEN s.tr[Key(t[1][1], t[2][1])].A
    ELSE IF t \in DOMAIN s.ca THEN s.ca[t]
    ELSE LET A == AOf(s, UpT(t)) IN IF A = <<>> THEN <<>> ELSE RMul(A, StrengthOf(s, t))
(* everything of p's tier that p is linked to: fine levels, sublevels of other manifolds, and, with a
   self-transition, other sublevels of its own manifold *)
Linked(s, p) ==
    UNION { IF Len(p) = 1 THEN {TPath(s, k)} ELSE IF Len(p) = 2 THEN HfComps(s, k) ELSE ZComps(s, k)
            : k \in { x \in DOMAIN s.tr : p[1] \in {x[1], x[2]} } }
LinkedTo(s, p) == { t \in Linked(s, p) : p \in {t[1], t[2]} /\ t[1] # t[2] }
(* components within a manifold point from the higher to the lower sublevel (Zeeman components as their
   hyperfine parent does, if that joins two levels); nothing is said when the two are degenerate *)
Height(s, t, p) == IF Len(p) = 3 /\ t[1][2] # t[2][2] THEN Shift(s, SubSeq(p, 1, 2)) ELSE En(s, p)
Rise(s, t) == VSub(Height(s, t, t[2]), Height(s, t, t[1]))
Tied(s, t) == t[1][1] = t[2][1] /\ (Rise(s, t)[1] = RZero) = (Rise(s, t)[2] = RZero)
UpperOf(s, t) == LET d == Rise(s, t) IN
    IF t[1][1] = t[2][1] /\ RLt(IF d[1] # RZero THEN d[1] ELSE d[2], RZero) THEN t[1] ELSE t[2]
OtherOf(t, p) == IF t[1] = p THEN t[2] ELSE t[1]
Decays(s, p) == { t \in LinkedTo(s, p) : UpperOf(s, t) = p }
DecayJson(s, p) ==
    LET D == Decays(s, p)
    IN [ p |-> p, miss |-> \E t \in D : AOf(s, t) = <<>>,
         tied |-> \E t \in LinkedTo(s, p) : Tied(s, t),
         links |-> { OtherOf(t, p) : t \in LinkedTo(s, p) },
         to |-> { [ p |-> OtherOf(t, p), A |-> AOf(s, t) ] : t \in D } ]

---------------------------------------------------------------------------
(* What an observer sees *)
Unknown(s, p) == p[1] \in s.loose
ObsEnergies(s) == { [ p |-> p, e |-> En(s, p), s |-> Shift(s, p) ] : p \in { x \in AllPaths(s) : ~Unknown(s, x) } }
EnMap(s) == TLCEval([ p \in AllPaths(s) |-> En(s, p) ])
ObsFine(s) == { [ p |-> <<l>>, e |-> s.E[l] ] : l \in Ids(s) \ s.loose }
ObsFreqs(s) == { [ t |-> TPath(s, k), f |-> Gap(s, TPath(s, k)), sf |-> s.tr[k].sf ]
                 : k \in { x \in DOMAIN s.tr : x[1] \notin s.loose /\ x[2] \notin s.loose } }
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
ObsSubFreqs(s) ==
    LET e == EnMap(s)
        K == { x \in DOMAIN s.tr : x[1] # x[2] /\ x[1] \notin s.loose /\ x[2] \notin s.loose }
        of(k) == LET q == CompPathsOf(s, k).all IN [ n \in DOMAIN q |-> [ t |-> q[n], f |-> VSub(e[q[n][2]], e[q[n][1]]) ] ]
        ks == SeqOf(K)
    IN Flatten([ n \in DOMAIN ks |-> of(ks[n]) ])
ObsA(s) == { [ t |-> TPath(s, k), A |-> s.tr[k].A ] : k \in DOMAIN s.tr }
ObsComps(s) == UNION { { [ t |-> t, A |-> AOf(s, t), st |-> IF AOf(s, UpT(t)) = <<>> THEN <<>> ELSE StrengthOf(s, t), ty |-> TypesOf(s, t) ] : t \in HfComps(s, k) \cup ZComps(s, k) }
                       : k \in DOMAIN s.tr }
ObsMembers(s) == [ levels |-> { [ l |-> l, name |-> Name(s, <<l>>) ] : l \in s.in },
                   trans |-> { TPath(s, k) : k \in DOMAIN s.tr },
                   al |-> { [ a |-> a, p |-> s.al[a] ] : a \in DOMAIN s.al },
                   tal |-> { [ a |-> a, t |-> s.tal[a] ] : a \in DOMAIN s.tal } ]
ObsConst(s) == [ b |-> s.b, gf |-> { [ p |-> p, v |-> GOf(s, p) ] : p \in UNION { HfPaths(s, l) : l \in s.in } }, qz |-> { [ p |-> p, v |-> s.qz[p] ] : p \in DOMAIN s.qz },
                 lv |-> { [ l |-> l, hf |-> s.hf[l], g |-> s.g[l] ] : l \in s.in } ]

ObsIds(s) == { [ l |-> l, id |-> s.id[l], zero |-> [n \in 1..3 |-> s.hf[l][n] = RZero] ] : l \in s.in }

---------------------------------------------------------------------------
(* State invariants of the specification *)
WellFormed(s) ==
    /\ \A k \in DOMAIN s.tr : k[1] \in s.in /\ k[2] \in s.in /\ {s.tr[k].lo, s.tr[k].up} = {k[1], k[2]}
    /\ \A a \in DOMAIN s.al : s.al[a][1] \in s.in /\ IsPath(s, s.al[a])
    /\ \A a \in DOMAIN s.tal : LET t == s.tal[a] IN Between(s, t[1], t[2]) \in {t, <<t[2], t[1]>>}
(* every name resolves to its own level, and names are unambiguous *)
NamesOK(s) == \A p \in AllPaths(s) : Name(s, p) \notin DOMAIN s.al => LookupText(s, Name(s, p)) = p
BarycentreHolds(s) == \A l \in s.in : l \notin s.loose =>
    RSumSet(HfPaths(s, l), LAMBDA p : RScale(p[2] + 1, Shift(s, p)[1])) = RZero
=============================================================================
