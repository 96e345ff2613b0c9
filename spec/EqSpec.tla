------------------------------- MODULE EqSpec -------------------------------
(***************************************************************************)
(* When two answers, or two parts of answers, are equal: when their        *)
(* contents are.  Contents are recorded as by the harness; a double is its *)
(* sixteen hexadecimal digits, or "nan".  Doubles are equal as numbers:    *)
(* the zeros are equal and a NaN is equal to nothing, not even to itself.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Zeros == {"0000000000000000", "8000000000000000"}

SameNumber(a, b) == a # "nan" /\ b # "nan" /\ (a = b \/ {a, b} \subseteq Zeros)

\* Sequences of the same length whose elements are pairwise the same.
SameSeq(Same(_, _), a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : Same(a[n], b[n])

SameNumbers(a, b) == SameSeq(SameNumber, a, b)
Identical(a, b) == a = b

SameObject(a, b) ==
    /\ a.name = b.name
    /\ SameSeq(SameNumbers, a.v, b.v)
    /\ SameSeq(SameNumbers, a.vt, b.vt)
    /\ SameSeq(SameNumbers, a.vn, b.vn)
    /\ a.g = b.g /\ a.s = b.s
    /\ a.e = b.e /\ a.sh = b.sh /\ a.geo = b.geo

Colours == {"Ka", "Kd", "Ks", "Ke"}
Scalars == {"Ns", "d", "Ni"}
Maps == {"map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "bump", "disp", "map_d", "decal"}

SameMaterial(a, b) ==
    /\ a.name = b.name
    /\ \A f \in Colours \cup Scalars : SameNumbers(a[f], b[f])
    /\ \A f \in Maps \cup {"illum"} : a[f] = b[f]

\* A looked-up triple: its form and the coordinates it points to.
SameTriple(a, b) ==
    a[1] = b[1] /\ \A n \in 2..4 : SameNumbers(a[n], b[n])

\* Errors are equal when everything said about them is.
SameError(a, b) == a.line = b.line /\ a.kind = b.kind /\ a.disp = b.disp

SameAnswer(a, b) ==
    IF a.st # b.st THEN FALSE
    ELSE IF a.st = "err" THEN SameError(a, b)
    ELSE IF "mats" \in DOMAIN a THEN SameSeq(SameMaterial, a.mats, b.mats)
    ELSE a.libs = b.libs /\ SameSeq(SameObject, a.objs, b.objs)

\* Parts, by kind.
SameItem(kind, a, b) ==
    CASE kind \in {"v", "vt", "vn", "color"} -> SameNumbers(a, b)
      [] kind = "triple"   -> SameTriple(a, b)
      [] kind = "object"   -> SameObject(a, b)
      [] kind = "material" -> SameMaterial(a, b)
      [] OTHER             -> a = b        \* names, references, elements, entries

\* The order of colours is that of their components, first to last; cs has
\* the order of each pair of components: "<", "=", ">", or "?" with a NaN.
ColourOrder(cs) ==
    IF cs[1] # "=" THEN cs[1] ELSE IF cs[2] # "=" THEN cs[2] ELSE cs[3]

\* Illumination models are ordered as their numbers.
ModelOrder(a, b) ==
    LET n == [x \in {"0", "1", "2"} |-> IF x = "0" THEN 0 ELSE IF x = "1" THEN 1 ELSE 2]
    IN  IF n[a] < n[b] THEN "<" ELSE IF n[a] = n[b] THEN "=" ELSE ">"

=============================================================================
