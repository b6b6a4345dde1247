------------------------------- MODULE NistMC -------------------------------
(* Level tables in the format of the NIST ASD: rows of text cells as they are
   served, and what they describe: levels, their terms and Lande values, and
   the atom that is built from them.  Rows are appended one by one. *)
EXTENDS RandomStates, Json
CONSTANTS MaxRows            \* tables have up to this many rows
VARIABLES t               \* the table so far
vars == <<t>>

Reps(n) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN "" ELSE " " \o G(k - 1) IN G(n)
Dec(n) == Num(n \div 100) \o "." \o Num((n % 100) \div 10) \o Num(n % 10)

---------------------------------------------------------------------------
(* one component: a configuration with up to two groups in parentheses, and a term *)
Piece(kind, x, fr, mid, o1, o2) ==
    CASE kind = "LS" -> <<fr \o "6s", "", "", "">>
      [] kind = "JK" -> <<fr, Core(x[1], x[2], o1, x[3]), mid, Bare(x[4], x[5], o2)>>
      [] OTHER       -> <<fr, Core(x[1], x[2], o1, x[3]), mid, Core(x[4], x[5], o2, x[6])>>
ConfText(p) == p[1] \o p[2] \o p[3] \o p[4]
TermText(kind, x, odd) ==
    CASE kind = "LS" -> LSText(x[1], x[2]) \o Star(odd)
      [] kind = "JK" -> Num(x[5] + 1) \o "[" \o FracText(x[6]) \o "]" \o Star(odd)
      [] OTHER -> "(" \o FracText(x[3]) \o "," \o FracText(x[6]) \o ")" \o Star(odd)
(* a JJ term that the table leaves out is read off the configuration *)
MadeTerm(x) == "(" \o FracText(x[3]) \o ", " \o FracText(x[6]) \o ")"

(* the second component: how its configuration is abbreviated *)
NoSecond == [style |-> "none", kind |-> "LS", x |-> <<0, 0>>, pct |-> 0, cell |-> "", conf |-> "", termcell |-> "", term |-> ""]
Second(style, kind, x, pct, p, mid, o1, o2, odd, omit) ==
    LET q == Piece(kind, x, p[1], IF style = "swap" THEN p[3] ELSE mid, o1, o2)
        full == Piece(kind, x, "5g2.4f.", mid, o1, o2)
        gone == omit /\ kind = "JJ"
    IN [ style |-> style, kind |-> kind, x |-> x, pct |-> pct,
         cell |-> CASE style = "swap" -> q[2] \o q[4] [] style = "tail" -> q[2] \o q[3] \o q[4] [] OTHER -> ConfText(full),
         conf |-> CASE style = "swap" -> ConfText(q) [] style = "tail" -> ConfText(q) [] OTHER -> ConfText(full),
         termcell |-> IF gone THEN "" ELSE TermText(kind, x, odd),
         term |-> IF gone THEN MadeTerm(x) ELSE TermText(kind, x, odd) ]
Styles(kind) == IF kind = "LS" THEN {"full"} ELSE {"full", "swap", "tail"}

Seconds(p, kind, J, pct) ==
    UNION { IF m = 0 THEN {NoSecond}
            ELSE UNION { UNION { UNION { { Second(st, k2, x, q, p, mid, o[1], o[2], o[3], o[4]) : st \in One(Styles(k2) \ (IF kind = "LS" THEN {"swap", "tail"} ELSE {})),
                                    q \in One({2, 11, 19, 30}), mid \in One(Mids), o \in One([1..4 -> BOOLEAN]) }
                           : x \in RandomX(k2, J) } : k2 \in One({"LS", "JK", "JJ"}) } : z \in {1} }
            : m \in One({0, 1, 1}) }

(* a level row: [conf, term cell, J cell, level cell, Lande cell, percentages cell] and what it means *)
RECURSIVE JText(_, _)
JText(js, how) == FracText(js[1]) \o (IF Len(js) = 1 THEN "" ELSE (IF how THEN " or " ELSE ",") \o JText(Tail(js), how))
PctCell(pct, first, s, gaps) ==
    IF s.style = "none" THEN (IF gaps[3] = 1 THEN "" ELSE Num(pct))
    ELSE Num(pct) \o Reps(gaps[1] + 1) \o first \o Reps(gaps[2] + 1) \o ":" \o Reps(gaps[1]) \o Num(s.pct) \o Reps(gaps[2])
         \o s.cell \o (IF s.termcell = "" THEN "" ELSE Reps(gaps[3]) \o s.termcell)
LevelRow(n, js, jhow, kind, x, odd, p, s, pct, e, lande, missing, prefix, mark, gaps) ==
    LET term == TermText(kind, x, odd)
        hide == missing # "no" /\ s.style # "none"
        cell == PctCell(pct, IF hide THEN term ELSE "", s, gaps)
    IN [ type |-> "level",
         cells |-> [ Configuration |-> ConfText(p), Term |-> IF hide THEN (IF missing = "star" THEN "*" ELSE "") ELSE prefix \o term,
                     J |-> JText(js, jhow), Level |-> Dec(e) \o mark, Lande |-> IF lande < 0 THEN "" ELSE Dec(lande), Pct |-> cell ],
         js |-> js, hidden |-> hide,
         conf |-> ConfText(p), term |-> term, odd |-> odd, kind |-> kind, x |-> x, e |-> e, lande |-> lande,
         pct |-> IF cell = "" THEN 100 ELSE pct, second |-> s ]
Fill(type, term, level, conf) ==
    [ type |-> type, cells |-> [ Configuration |-> conf, Term |-> term, J |-> IF type = "limit" THEN "---" ELSE "1/2", Level |-> level, Lande |-> "", Pct |-> "" ] ]

Top == IF t.rows = <<>> THEN 0 ELSE t.e
Step == { 100 + k : k \in {0, 3, 1700, 250000, 4321} }
RandomLevel(n) ==
    UNION { UNION { UNION { UNION { UNION { UNION {
        { LevelRow(n, js, y[2], kind, x, y[1], p, s, pct, e, lande, missing, prefix, mark, gaps)
          : lande \in One({-1, 0, 118, 200, 67}), missing \in One({"no", "no", "star", "blank"}), prefix \in One({"", "", "a ", "z "}),
            mark \in One({"", "?", ""}), gaps \in One([1..3 -> {1, 2, 5}]), js \in One({ <<J>>, <<J, J + 2>>, <<J, J + 2, J + 4>>, <<J + 2, J>> }), e \in One({ Top + z : z \in Step }) }
        : s \in Seconds(p, kind, J, pct) } : pct \in One({35, 54, 81, 97, 100}) }
        : p \in { Piece(kind, x, "4f" \o Num(n) \o fr, mid, y[3], y[4]) : mid \in One(Mids), fr \in One({".", ".6p.", ".5d2.6p."}) } }
        : x \in RandomX(kind, J), y \in One([1..4 -> BOOLEAN]) } : kind \in One({"LS", "LS", "JK", "JJ"}) } : J \in One({ k \in 0..MaxJ : Even(k) = t.whole }) }
RandomRow(n) ==
    UNION { CASE k = "level" -> RandomLevel(n)
              [] k = "limit" -> { Fill("limit", "Limit", v, "X III") : v \in One({"98231.75", "", "[98231]"}) }
              [] OTHER -> { Fill("undefined", "2S", v, "9s") : v \in One({"", "[22000]", "22000.5+x", "(31000)"}) }
            : k \in One({"level", "level", "level", "level", "limit", "undefined"} \ (IF t.rows = <<>> THEN {"limit"} ELSE {})) }

Blank == [rows |-> <<>>, n |-> 0, e |-> 0, lande |-> TRUE, pct |-> TRUE, I |-> 0, num |-> 0, whole |-> TRUE]
Init == t = Blank
Start == \E n \in One(1..MaxRows), l \in One({TRUE, TRUE, FALSE}), p \in One({TRUE, TRUE, TRUE, FALSE}), I \in One(0..5), num \in One(0..(MaxRows + 2)), w \in One(BOOLEAN) :
            t' = [Blank EXCEPT !.n = n, !.lande = l, !.pct = p, !.I = I, !.num = num, !.whole = w]   \* all levels of an atom have an even, or all an odd, number of electrons
More == \E r \in RandomRow(Len(t.rows) + 1) :
            t' = [t EXCEPT !.rows = Append(@, r), !.e = IF r.type = "level" THEN r.e ELSE @]
Next == IF t.n = 0 \/ Len(t.rows) = t.n THEN Start ELSE More
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* what the table says *)
RECURSIVE Before(_)
Before(q) == IF q = <<>> \/ Head(q).type = "limit" THEN <<>>
             ELSE (IF Head(q).type = "level" THEN <<Head(q)>> ELSE <<>>) \o Before(Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
(* without a column of percentages there is nothing to take a term from, and no second component *)
Seen(r) == IF t.pct THEN r
           ELSE [r EXCEPT !.second = NoSecond, !.pct = 100, !.term = IF r.hidden THEN "" ELSE @, !.odd = IF r.hidden THEN FALSE ELSE @]
Alone(r, J) == [conf |-> r.conf, term |-> r.term, J |-> J, jt |-> FracText(J), odd |-> r.odd, kind |-> r.kind, x |-> r.x, e |-> r.e,
                lande |-> IF t.lande THEN r.lande ELSE -1, pct |-> r.pct, second |-> r.second,
                plain |-> t.pct \/ ~r.hidden]
Levels == Flat([ n \in DOMAIN Before(t.rows) |-> LET r == Seen(Before(t.rows)[n]) IN [ m \in DOMAIN r.js |-> Alone(r, r.js[m]) ] ])
QnOf(kind, x) == CASE kind = "LS" -> Qn(None, None, None, None, None, None, x[1], x[2], None)
                   [] kind = "JJ" -> Qn(x[1], x[2], x[4], x[5], x[3], x[6], None, None, None)
                   [] OTHER -> Qn(x[1], x[2], x[4], x[5], x[3], None, None, None, x[6])
(* the Lande value of a level that has none in the table: parts with their LS composition *)
Known(kind, x, J) == IF kind = "LS" THEN TRUE ELSE Valid(kind, x, J)
Part(kind, x, J, pct) == [ pct |-> pct, ls |-> { [ w |-> WJson(r.w), X |-> LandeX(r.l, r.s, J) ] : r \in ToLS(kind, x, J) } ]
GParts(v) == IF v.lande >= 0 \/ ~v.plain \/ ~Known(v.kind, v.x, v.J) \/ (v.second.style # "none" /\ ~Known(v.second.kind, v.second.x, v.J)) THEN <<>>
             ELSE <<Part(v.kind, v.x, v.J, v.pct)>>
                  \o (IF v.second.style = "none" THEN <<>> ELSE <<Part(v.second.kind, v.second.x, v.J, v.second.pct)>>)

Par(v) == IF v.odd THEN -1 ELSE 1
Permitted(m, n) == FineTypes(Levels[m].J, Par(Levels[m]), Levels[n].J, Par(Levels[n]), m = n)
Table ==
    [ rows |-> [ n \in DOMAIN t.rows |-> t.rows[n].cells ], lande |-> t.lande, pct |-> t.pct, I |-> t.I, num |-> t.num,
      levels |-> [ n \in DOMAIN Levels |-> LET v == Levels[n] IN
            [ conf |-> v.conf, term |-> v.term, J |-> v.J, jt |-> v.jt, odd |-> v.odd, e |-> v.e, lande |-> v.lande, pct |-> v.pct, kind |-> v.kind, q |-> QnOf(v.kind, v.x),
              plain |-> v.plain, second |-> [ style |-> v.second.style, conf |-> v.second.conf, term |-> v.second.term, pct |-> v.second.pct, kind |-> v.second.kind,
                                               q |-> QnOf(v.second.kind, v.second.x) ],
              g |-> GParts(v) ] ],
      hf |-> { [ n |-> n, v |-> <<n, -2 * n, n % 2>> ] : n \in { k \in DOMAIN Levels : (k + t.I) % 3 # 0 } },
      tab |-> { [ a |-> m, b |-> n, A |-> 1 + ((5 * m + n) % 9) ] :
                m \in DOMAIN Levels, n \in { k \in DOMAIN Levels : (7 * k + t.num) % 3 # 0 } },
      pairs |-> { [ a |-> m, b |-> n, ty |-> Permitted(m, n) ] : m \in DOMAIN Levels, n \in DOMAIN Levels } ]
Complete == t.n > 0 /\ Len(t.rows) = t.n
Printed == Complete => PrintT("@@" \o ToJson(Table))
(* the table describes at most three levels per row, in the order of its rows and so of its energies *)
Theorems == Complete => /\ Len(Levels) <= 3 * Len(t.rows)
                        /\ \A m, n \in DOMAIN Levels : m < n => Levels[m].e <= Levels[n].e
                        /\ \A m, n \in DOMAIN Levels : m # n => <<Levels[m].conf, Levels[m].jt>> # <<Levels[n].conf, Levels[n].jt>>
=============================================================================
