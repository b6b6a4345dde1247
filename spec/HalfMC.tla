------------------------------- MODULE HalfMC -------------------------------
(* Half-integers as text in every form, orbital letters, and what is neither.
   One state per doubled value n. *)
EXTENDS Notation, Json
CONSTANTS Lo, Hi     \* from -Lo to Hi
VARIABLES n
Init == n = -Lo
(* and some that are far off *)
Far == {19999, 100000, 2000001, 2000002, 33554435, 200000000, -1999999, -20000004}
Next == \/ n \in (-Lo)..(Hi - 1) /\ n' = n + 1
        \/ n = Hi /\ n' \in Far
Spec == Init /\ [][Next]_n

Sign(k) == IF k < 0 THEN "-" ELSE ""
DecText(k) == Sign(k) \o ToString(Abs(k) \div 2) \o (IF Even(k) THEN ".0" ELSE ".5")
Texts == {FracText(n), DecText(n), ToString(n) \o "/2", DecText(n) \o "0", ToString(2 * n) \o "/4"}
         \cup (IF Even(n) THEN {ToString(n \div 2) \o "/1"} ELSE {})
         \cup (IF n = 0 THEN {"-0", "-0.0", "0/2", "-0/2"} ELSE {})
(* neither integers nor half-integers *)
Off == { ToString(2 * n + 1) \o "/4", ToString(6 * n + 1) \o "/12" }
       \cup (IF Even(n) THEN { Sign(n) \o ToString(Abs(n) \div 2) \o d : d \in {".25", ".1", ".75", ".501", ".0002", ".4999", ".50001"} } ELSE {})
Garbage == { FracText(n) \o g : g \in {"x", "/", "/a", " 1/2 3", "?", "*"} } \cup { g \o FracText(n) : g \in {"a", "F=", "/", "--"} }
           \cup {"Blueberry", "/", "1/2/3", "one half", "S"}
Others == <<"A", "B", "C", "E", "J", "a", "b", "c", "e", "j", "0", "1", "2", "9", "*", "+", "-", ".", "(", "[", "<", "_", "~", "SS", "SP", "PD", "ss", "Sp", "DF", "YZ", " ", "S ", " S", "S1", "sP", "PDF", "SPDFGHIKLMNOQRTUVWXYZ">>
(* letters: <<text, orbital momentum>> *)
Letters == IF n \in 0..20 THEN { [t |-> UpperLetters[n + 1], l |-> n], [t |-> LowerLetters[n + 1], l |-> n] } ELSE {}
NoLetters == IF n \in DOMAIN Others THEN {Others[n]} ELSE {}
Row == [ n |-> n, text |-> FracText(n), texts |-> Texts, off |-> Off, bad |-> Garbage,
         letters |-> Letters, upper |-> IF n \in 0..20 THEN UpperLetters[n + 1] ELSE "", noletters |-> NoLetters ]
Printed == PrintT("@@" \o ToJson(Row))
(* letters and canonical texts are different for different values *)
Theorems == /\ \A m \in (-Lo)..Hi : m # n => FracText(m) # FracText(n)
            /\ \A k \in 1..21 : (n \in 0..20 /\ k # n + 1) => UpperLetters[k] # UpperLetters[n + 1] /\ LowerLetters[k] # LowerLetters[n + 1]
=============================================================================
