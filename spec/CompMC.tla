------------------------------- MODULE CompMC -------------------------------
(* Every kind of transition: nuclear spin, the two J, whether parity changes,
   and transitions of a level with itself (all doubled).  One state per kind;
   its components, what they permit, and their strengths. *)
EXTENDS Quantum, Json
CONSTANTS Is, Js,          \* the values explored
          MaxZ             \* Zeeman components are listed for F up to this
VARIABLES k
Same(x) == x.same
Init == k \in { x \in [i : Is, j1 : Js, j2 : Js, par : {1, -1}, same : BOOLEAN] :
                  /\ x.same => x.j1 = x.j2 /\ x.par = 1
                  /\ (x.j1 + x.j2) % 2 = 0 }
Next == UNCHANGED k
Spec == Init /\ [][Next]_k

Types == FineTypes(k.j1, 1, k.j2, k.par, k.same)
Row ==
    LET t == Types
    IN [ i |-> k.i, j1 |-> k.j1, j2 |-> k.j2, par |-> k.par, same |-> k.same, ty |-> t,
         hf |-> { LET ht == HfTypes(k.i, k.j1, k.j2, t, p[1], p[2])
                  IN [ f1 |-> p[1], f2 |-> p[2], ty |-> ht,
                       st |-> WJson(HfStrengthW(k.i, k.j1, k.j2, t, p[1], p[2])),
                       z |-> IF p[1] > MaxZ \/ p[2] > MaxZ THEN {}
                             ELSE { [ m1 |-> q[1], m2 |-> q[2], ty |-> ZTypes(p[1], p[2], ht, q[1], q[2]),
                                      st |-> WJson(ZStrengthW(p[1], p[2], ht, q[1], q[2])) ]
                                    : q \in ZPairs(p[1], p[2], ht, k.same /\ p[1] = p[2]) } ]
                  : p \in HfPairs(k.i, k.j1, k.j2, t, k.same) } ]
Printed == PrintT("@@" \o ToJson(Row))
(* every component permits only what its parent permits; the sum rules *)
Small == k.i <= 4 /\ k.j1 <= 5 /\ k.j2 <= 5
Theorems ==
    LET t == Types
    IN /\ \A p \in HfPairs(k.i, k.j1, k.j2, t, k.same) :
            LET ht == HfTypes(k.i, k.j1, k.j2, t, p[1], p[2])
            IN /\ \A n \in 1..3 : ht[n] => t[n]
               /\ Small => ZSumRuleOK(p[1], p[2], ht)
       /\ (Small /\ ~k.same) => HfSumRuleOK(k.i, k.j1, k.j2, t)
       /\ k.same => ~t[1] /\ ~t[3]
       /\ ~(t[1] /\ (t[2] \/ t[3]))
=============================================================================
