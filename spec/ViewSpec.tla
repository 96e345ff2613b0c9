------------------------------ MODULE ViewSpec ------------------------------
(***************************************************************************)
(* What the library says about an object set it has returned: looking up   *)
(* a vertex/texture/normal triple, comparing the forms of two references,  *)
(* and writing items back as text.  Objects are records as in the recorded *)
(* results: v, vt, vn, g, s, e, sh, geo.                                   *)
(***************************************************************************)
EXTENDS Lexer, TLC

Absent == 0 - 1

-----------------------------------------------------------------------------
(* References <<v, vt, vn>>, counted from 0, -1 where a part is absent.       *)

FormName(q) == IF q[2] = Absent THEN (IF q[3] = Absent THEN "v" ELSE "vn")
               ELSE (IF q[3] = Absent THEN "vt" ELSE "vtn")

SameForm(a, b) == FormName(a) = FormName(b)

Inside(i, set) == i >= 0 /\ i < Len(set)

\* The triple a reference denotes in an object: all of its parts, or nothing.
Lookup(ob, q) ==
    IF /\ Inside(q[1], ob.v)
       /\ q[2] = Absent \/ Inside(q[2], ob.vt)
       /\ q[3] = Absent \/ Inside(q[3], ob.vn)
    THEN <<FormName(q),
           ob.v[q[1] + 1],
           IF q[2] = Absent THEN <<>> ELSE ob.vt[q[2] + 1],
           IF q[3] = Absent THEN <<>> ELSE ob.vn[q[3] + 1]>>
    ELSE <<"none", <<>>, <<>>, <<>>>>

-----------------------------------------------------------------------------
(* Text.  References are written as in a file, counted from 1.                *)

One(i) == ToString(i + 1)

RefText(q) ==
    CASE FormName(q) = "v"   -> One(q[1])
      [] FormName(q) = "vt"  -> One(q[1]) \o "/" \o One(q[2])
      [] FormName(q) = "vn"  -> One(q[1]) \o "//" \o One(q[3])
      [] FormName(q) = "vtn" -> One(q[1]) \o "/" \o One(q[2]) \o "/" \o One(q[3])

\* The words an element is written as.
ElementWords(e) == <<e.k>> \o [i \in 1..Len(e.x) |-> RefText(e.x[i])]

\* The same for numbers of any size, given as decimal words.
NextDigit(c) == CASE c = "0" -> "1" [] c = "1" -> "2" [] c = "2" -> "3" [] c = "3" -> "4" [] c = "4" -> "5"
                  [] c = "5" -> "6" [] c = "6" -> "7" [] c = "7" -> "8" [] c = "8" -> "9"

Zeros == "00000000000000000000000000000000"

Plus1(w) ==
    LET n == Len(w)
        k == CHOOSE i \in 0..n :          \* as many nines are at the end
                /\ \A j \in 0..i - 1 : Ch(w, n - j) = "9"
                /\ i = n \/ Ch(w, n - i) # "9"
    IN  (IF k = n THEN "1" ELSE SubSeq(w, 1, n - k - 1) \o NextDigit(Ch(w, n - k))) \o SubSeq(Zeros, 1, k)

WordRefText(q) ==
    CASE q[2] = "-" /\ q[3] = "-" -> Plus1(q[1])
      [] q[2] # "-" /\ q[3] = "-" -> Plus1(q[1]) \o "/" \o Plus1(q[2])
      [] q[2] = "-" /\ q[3] # "-" -> Plus1(q[1]) \o "//" \o Plus1(q[3])
      [] q[2] # "-" /\ q[3] # "-" -> Plus1(q[1]) \o "/" \o Plus1(q[2]) \o "/" \o Plus1(q[3])

SameWordForm(a, b) == \A p \in 1..3 : a[p] = "-" <=> b[p] = "-"

SmoothText(n) == IF n = "0" THEN "off" ELSE n

\* One set of the summary of an object, given the texts of its first and last item.
SetText(title, n, ends) ==
    "    " \o title \o " set:\n" \o
    (IF n = 0 THEN "        data: []\n"
     ELSE "        data: [(" \o ends[1] \o ") ... (" \o ends[2] \o ")]\n") \o
    "        length: " \o ToString(n) \o "\n"

Summary(ob, ends) ==
    "Object {\n" \o "    name: " \o ob.name \o "\n" \o
    SetText("vertex", Len(ob.v), ends.v) \o
    SetText("texture vertex", Len(ob.vt), ends.vt) \o
    SetText("normal vertex", Len(ob.vn), ends.vn) \o
    SetText("group", Len(ob.g), ends.g) \o
    SetText("smoothing group", Len(ob.s), ends.s) \o
    SetText("element", Len(ob.e), ends.e) \o
    "}\n"

RECURSIVE Summaries(_, _, _)
Summaries(dis, i, j) ==      \* of the objects from i to j, halved to stay shallow
    IF i > j THEN ""
    ELSE IF i = j THEN dis[i].sum \o "\n"
    ELSE LET m == (i + j) \div 2 IN Summaries(dis, i, m) \o Summaries(dis, m + 1, j)

SetSummary(dis) == "ObjectSet {\n" \o Summaries(dis, 1, Len(dis)) \o "}\n"
=============================================================================
