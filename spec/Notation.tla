------------------------------ MODULE Notation ------------------------------
(* Spectroscopic notation: the texts that state a coupled configuration, and the
   quantum numbers they state.  All angular momenta are doubled. *)
EXTENDS Quantum

UpperLetters == <<"S", "P", "D", "F", "G", "H", "I", "K", "L", "M", "N", "O", "Q", "R", "T", "U", "V", "W", "X", "Y", "Z">>
LowerLetters == <<"s", "p", "d", "f", "g", "h", "i", "k", "l", "m", "n", "o", "q", "r", "t", "u", "v", "w", "x", "y", "z">>
Let(l) == UpperLetters[l \div 2 + 1]
Low(l) == LowerLetters[l \div 2 + 1]
Star(odd) == IF odd THEN "*" ELSE ""
Num(n) == ToString(n)

LSText(l, s) == Num(s + 1) \o Let(l)
Core(l, s, odd, j) == "(" \o LSText(l, s) \o Star(odd) \o "<" \o FracText(j) \o ">)"
Bare(l, s, odd) == "(" \o LSText(l, s) \o Star(odd) \o ")"
Orbital(n, l) == Num(n) \o Low(l)

(* quantum numbers that the notation does not state, or that are left open here *)
None == -1
Open == -2
Qn(lc, sc, lo, so, jc, jo, l, s, k) == <<lc, sc, lo, so, jc, jo, l, s, k>>
(* full: everything that the decomposition needs is stated *)
Form(conf, term, odd, q) == [conf |-> conf, term |-> term, odd |-> odd, q |-> q,
                             full |-> q[5] < 0 \/ q[6] < 0 \/ \A n \in 1..6 : q[n] >= 0]
BlankForms == { Form(c, Star(odd), odd, Qn(None, None, None, None, None, None, None, None, None))
                : c \in {"4f12.5d.6s2", "5f3.6d.7s2"}, odd \in BOOLEAN }

(* shells in front of an ancestor, behind it, and the odd mark of the ancestor itself *)
Fronts == {"", "4f13.", "3p5.", "5d9", "4f2.", "3s2.3p.", "1s2.2s2"}
Mids == {".6s.", ".", "5d2.", ".4s.4p."}

LSForms(x, fr, mid, o1, o2, odd) ==       \* x = <<l, s>>
    LET q == Qn(None, None, None, None, None, None, x[1], x[2], None)
        t == LSText(x[1], x[2]) \o Star(odd)
    IN { Form(c, t, odd, q) : c \in { fr \o "6s", fr \o Bare(6, 1, o1) \o mid \o "6p2", "5f3.6d.7s2", fr \o Core(4, 2, o2, 4) \o ".8p" } }

(* JJ: x = <<lc, sc, jc, lo, so, jo>> *)
JJForms(x, fr, mid, o1, o2, odd) ==
    LET pair(sep) == "(" \o FracText(x[3]) \o sep \o FracText(x[6]) \o ")" \o Star(odd)
        q == Qn(x[1], x[2], x[4], x[5], x[3], x[6], None, None, None)
        qe == Qn(x[1], x[2], x[4], Open, x[3], x[6], None, None, None)
        both == "(" \o LSText(x[1], x[2]) \o "<" \o FracText(x[3]) \o ">," \o LSText(x[4], x[5]) \o "<" \o FracText(x[6]) \o ">)" \o Star(odd)
        c1 == fr \o Core(x[1], x[2], o1, x[3])
    IN { Form(c1 \o mid \o Core(x[4], x[5], o2, x[6]), pair(sep), odd, q) : sep \in {",", ", "} }
       \cup { Form(c, both, odd, q) : c \in {"5d9.6s.6p", fr \o "6p2", "5d.6p2"} }
       \cup (IF x[5] = 1 THEN { Form(c1 \o "." \o Orbital(5, x[4]) \o "<" \o FracText(x[6]) \o ">", pair(","), odd, qe) } ELSE {})
       \cup { Form("5f4<7/2>.5f5<5/2>.(8,5/2)" \o Star(o1) \o "<" \o FracText(x[3]) \o ">" \o mid \o Core(x[4], x[5], o2, x[6]),
                   pair(","), odd, Qn(None, None, x[4], x[5], x[3], x[6], None, None, None)) }

(* JK: x = <<lc, sc, jc, lo, so, k>> *)
JKForms(x, fr, mid, o1, o2, odd) ==
    LET term == Num(x[5] + 1) \o "[" \o FracText(x[6]) \o "]" \o Star(odd)
        q == Qn(x[1], x[2], x[4], x[5], x[3], None, None, None, x[6])
        c1 == fr \o Core(x[1], x[2], o1, x[3])
    IN { Form(c1 \o mid \o Bare(x[4], x[5], o2), term, odd, q) }
       \cup (IF x[5] = 1 THEN { Form(c1 \o d \o Orbital(6, x[4]), term, odd, q) : d \in {".", ""} } ELSE {})

(* LK: x = <<lc, sc, lo, so, l, k>> *)
LKForms(x, fr, mid, o1, o2, odd) ==
    LET term(st) == Let(x[5]) \o st \o " " \o Num(x[4] + 1) \o "[" \o FracText(x[6]) \o "]" \o Star(odd)
        q == Qn(x[1], x[2], x[3], x[4], None, None, x[5], None, x[6])
        c1 == fr \o Bare(x[1], x[2], o1)
        terms == {term("")} \cup (IF odd THEN {term("*")} ELSE {})
    IN { Form(c1 \o mid \o Bare(x[3], x[4], o2), t, odd, q) : t \in terms }
       \cup (IF x[4] = 1 THEN { Form(c1 \o "." \o Orbital(4, x[3]), t, odd, q) : t \in terms } ELSE {})

---------------------------------------------------------------------------
(* LS composition of a coupled state: L, S and the recoupling coefficient, to states ((lc lo)L (sc so)S)J.  Its sign is
   open only as a whole: in JK coupling the phases (-1)^(sc+L-K) of turning (sc L)K into (L sc)K and (-1)^(L+sc+so+J)
   of the second 6j coefficient leave nothing that depends on L or S; neither does LK coupling. *)
Rows2(Ls, Ss, w(_, _)) == { [l |-> L, s |-> S, lab |-> LSText(L, S), w |-> w(L, S)] : L \in Ls, S \in Ss }
Times4(w, a, b, c, d) == IF IsZero(w) THEN WZero ELSE TimesSqrt(TimesSqrt(TimesSqrt(TimesSqrt(w, a + 1), b + 1), c + 1), d + 1)
Times2(w, a, b) == IF IsZero(w) THEN WZero ELSE TimesSqrt(TimesSqrt(w, a + 1), b + 1)
JJtoLS(x, J) == Rows2(Triple(x[1], x[4]), Triple(x[2], x[5]), LAMBDA L, S :
    Times4(W9(x[1], x[2], x[3], x[4], x[5], x[6], L, S, J), x[3], x[6], L, S))
JKtoLS(x, J) == Rows2(Triple(x[1], x[4]), Triple(x[2], x[5]), LAMBDA L, S :
    Times4(WMul(W6(x[2], x[1], x[3], x[4], x[6], L), W6(L, x[2], x[6], x[5], J, S)), x[3], x[6], L, S))
LKtoLS(x, J) == Rows2({x[5]}, Triple(x[2], x[4]), LAMBDA L, S :
    Times2(W6(L, x[2], x[6], x[4], J, S), x[6], S))
LStoLS(x, J) == { [l |-> x[1], s |-> x[2], lab |-> LSText(x[1], x[2]), w |-> [s |-> <<1, <<1>>>>, e |-> PZero]] }
ToLS(kind, x, J) == CASE kind = "LS" -> LStoLS(x, J) [] kind = "JJ" -> JJtoLS(x, J)
                      [] kind = "JK" -> JKtoLS(x, J) [] OTHER -> LKtoLS(x, J)
Forms(kind, x, fr, mid, o1, o2, odd) ==
    CASE kind = "LS" -> LSForms(x, fr, mid, o1, o2, odd) [] kind = "JJ" -> JJForms(x, fr, mid, o1, o2, odd)
      [] kind = "JK" -> JKForms(x, fr, mid, o1, o2, odd) [] OTHER -> LKForms(x, fr, mid, o1, o2, odd)

(* the momenta couple *)
Valid(kind, x, J) ==
    CASE kind = "LS" -> Tri(x[1], x[2], J) /\ Even(x[1])
      [] kind = "JJ" -> Tri(x[1], x[2], x[3]) /\ Tri(x[4], x[5], x[6]) /\ Tri(x[3], x[6], J) /\ Even(x[1]) /\ Even(x[4])
      [] kind = "JK" -> Tri(x[1], x[2], x[3]) /\ Tri(x[3], x[4], x[6]) /\ Tri(x[6], x[5], J) /\ Even(x[1]) /\ Even(x[4])
      [] OTHER -> Tri(x[1], x[3], x[5]) /\ Tri(x[5], x[2], x[6]) /\ Tri(x[6], x[4], J) /\ Even(x[1]) /\ Even(x[3]) /\ Even(x[5])

(* the spin part of a Lande factor: (J(J+1) + S(S+1) - L(L+1)) / 2J(J+1) *)
LandeX(L, S, J) == IF J = 0 THEN RZero ELSE R(J * (J + 2) + S * (S + 2) - L * (L + 2), 2 * J * (J + 2))
=============================================================================
