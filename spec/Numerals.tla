------------------------------ MODULE Numerals ------------------------------
(***************************************************************************)
(* Which words are numerals, and what integers they denote.                *)
(*                                                                         *)
(* A real is an optional sign followed by inf, infinity or nan (in any     *)
(* case) or by decimal digits with at most one point, at least one digit,  *)
(* and an optional exponent.  The double a real denotes is left to the     *)
(* constant operator Val of the modules that need it.                      *)
(*                                                                         *)
(* An integer is an optional sign and decimal digits, of 64-bit signed     *)
(* (IsInt) or unsigned (IsNat) range.  TLC integers have 32 bits, so       *)
(* magnitudes saturate at Huge, which is more than any file has vertices.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

LOCAL C(s, i) == SubSeq(s, i, i)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsDigit(c) == c \in Digits

DV(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
           [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
           [] c = "8" -> 8 [] c = "9" -> 9

\* the first position >= i that is no digit
DigitRun[s \in STRING, i \in Nat] == IF i <= Len(s) /\ IsDigit(C(s, i)) THEN DigitRun[s, i + 1] ELSE i

SignLen(s) == IF Len(s) > 0 /\ C(s, 1) \in {"+", "-"} THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Reals *)

Letters == {<<"a", "A">>, <<"f", "F">>, <<"i", "I">>, <<"n", "N">>, <<"t", "T">>, <<"y", "Y">>}
SameLetter(c, d) == c = d \/ <<d, c>> \in Letters        \* d is lower case

SpellsFrom(s, i, w) ==
    /\ Len(s) - i + 1 = Len(w)
    /\ \A j \in 1..Len(w) : SameLetter(C(s, i + j - 1), C(w, j))

\* At position i: nothing, or an exponent that reaches to the end.
ExponentOrEnd(s, i) ==
    \/ i > Len(s)
    \/ /\ C(s, i) \in {"e", "E"}
       /\ LET j == IF i < Len(s) /\ C(s, i + 1) \in {"+", "-"} THEN i + 2 ELSE i + 1
          IN  j <= Len(s) /\ DigitRun[s, j] > Len(s)

DecimalFrom(s, i) ==
    LET a == DigitRun[s, i]
        point == a <= Len(s) /\ C(s, a) = "."
        b == IF point THEN DigitRun[s, a + 1] ELSE a
        digits == (a - i) + (IF point THEN b - a - 1 ELSE 0)
    IN  digits > 0 /\ ExponentOrEnd(s, b)

IsReal(s) ==
    LET i == SignLen(s) + 1
    IN  /\ i <= Len(s)
        /\ \/ DecimalFrom(s, i)
           \/ SpellsFrom(s, i, "inf")
           \/ SpellsFrom(s, i, "infinity")
           \/ SpellsFrom(s, i, "nan")

-----------------------------------------------------------------------------
(* Integers *)

Huge == 1000000000

ZerosEnd[s \in STRING, i \in Nat] == IF i <= Len(s) /\ C(s, i) = "0" THEN ZerosEnd[s, i + 1] ELSE i

\* The digits from position i on, without leading zeros ("" for zero).
Magnitude(s, i) == SubSeq(s, ZerosEnd[s, i], Len(s))

\* digit strings of one length, compared from position i on
LexLeq[a \in STRING, b \in STRING, i \in Nat] ==
    IF i > Len(a) THEN TRUE
    ELSE IF C(a, i) = C(b, i) THEN LexLeq[a, b, i + 1]
    ELSE DV(C(a, i)) < DV(C(b, i))

MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq[a, b, 1])

AllDigits(s, i) == i <= Len(s) /\ DigitRun[s, i] > Len(s)

Negative(s) == Len(s) > 0 /\ C(s, 1) = "-"

IsInt(s) ==
    LET i == SignLen(s) + 1
    IN  /\ AllDigits(s, i)
        /\ MagLeq(Magnitude(s, i),
                  IF Negative(s) THEN "9223372036854775808" ELSE "9223372036854775807")

IsNat(s) ==
    LET i == SignLen(s) + 1
    IN  /\ ~Negative(s)
        /\ AllDigits(s, i)
        /\ MagLeq(Magnitude(s, i), "18446744073709551615")

DigitsVal[s \in STRING, i \in Nat, acc \in Nat] ==
    IF i > Len(s) THEN acc ELSE DigitsVal[s, i + 1, 10 * acc + DV(C(s, i))]

MagVal(m) == IF Len(m) > 9 THEN Huge ELSE DigitsVal[m, 1, 0]

\* The value of an IsInt or IsNat word, saturated at +-Huge.
IntVal(s) ==
    LET v == MagVal(Magnitude(s, SignLen(s) + 1))
    IN  IF Negative(s) THEN 0 - v ELSE v

\* The one spelling of an IsNat word that has no sign and no leading zeros.
Canonical(s) ==
    LET m == Magnitude(s, SignLen(s) + 1) IN IF m = "" THEN "0" ELSE m
=============================================================================
