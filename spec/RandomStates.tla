---------------------------- MODULE RandomStates ----------------------------
(* Random coupled states whose momenta couple to J *)
EXTENDS Notation
CONSTANTS MaxL, MaxS, MaxJ  \* doubled bounds of the orbital, spin and total momenta

Evens(n) == { k \in 0..n : Even(k) }
One(S) == {RandomElement(S)}
(* orbital momenta couple to one that has a letter, and in coupled states to one whose factorials are tabulated *)
MaxLetter == 2 * (Len(UpperLetters) - 1)
MaxOrbital == 28
Orbitals(s, j, taken) == { l \in Triple(s, j) : l + taken <= MaxOrbital }
Lettered(s, j) == { l \in Triple(s, j) : l <= MaxLetter }
(* a spin that goes with j, and an orbital momentum that couples with it to j *)
SpinsFor(j) == { s \in 0..MaxS : Even(s + j) }
RandomX(kind, J) ==
    CASE kind = "LS" -> UNION { { <<l, s>> : l \in One({ l \in Triple(s, J) : l <= MaxLetter }) } : s \in One(SpinsFor(J)) }
      [] kind = "JJ" -> UNION { UNION { UNION { UNION { { <<lc, sc, jc, lo, so, jo>> : lo \in One(Orbitals(so, jo, lc)) } : lc \in One(Orbitals(sc, jc, Abs(so - jo))) }
            : sc \in One(SpinsFor(jc)), so \in One(SpinsFor(jo)) } : jo \in One(Triple(jc, J) \cap 0..MaxJ) } : jc \in One(0..MaxJ) }
      [] kind = "JK" -> UNION { UNION { UNION { UNION { { <<lc, sc, jc, lo, so, k>> : lc \in One(Orbitals(sc, jc, lo)) } : sc \in One(SpinsFor(jc)) }
            : jc \in One(Triple(lo, k)) } : k \in One(Triple(so, J)) } : so \in One(0..MaxS), lo \in One(Evens(MaxL)) }
      [] OTHER -> UNION { UNION { UNION { UNION { { <<lc, sc, lo, so, l, k>> : lo \in One(Lettered(l, lc)) } : l \in One(Lettered(sc, k)) }
            : sc \in One(SpinsFor(k)) } : k \in One(Triple(so, J)) } : so \in One(0..MaxS), lc \in One(Evens(MaxL)) }
=============================================================================
