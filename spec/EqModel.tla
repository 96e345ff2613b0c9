------------------------------ MODULE EqModel -------------------------------
(***************************************************************************)
(* A small universe of contents, on which equality is symmetric and        *)
(* transitive, reflexive exactly without NaNs, and no coarser and no finer *)
(* than the contents: changing one part of an object or material changes   *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS EqSpec, TLC

Num == {"0000000000000000", "8000000000000000", "3ff0000000000000", "nan"}
Str == {"a", "A"}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Ref == {<<0, -1, -1>>, <<0, 0, -1>>, <<0, -1, 0>>}

Empty == [name |-> "", v |-> <<>>, vt |-> <<>>, vn |-> <<>>, g |-> <<>>, s |-> <<>>,
          e |-> <<>>, sh |-> <<>>, geo |-> <<>>]
Plain == [name |-> "a", Ka |-> <<"3ff0000000000000">>, Kd |-> <<>>, Ks |-> <<>>, Ke |-> <<>>, Ns |-> <<>>,
          d |-> <<>>, Ni |-> <<>>, illum |-> <<"0">>, map_Ka |-> <<>>, map_Kd |-> <<>>, map_Ks |-> <<>>,
          map_Ke |-> <<>>, map_Ns |-> <<>>, bump |-> <<>>, disp |-> <<>>, map_d |-> <<>>, decal |-> <<>>]

Objects ==
    [name : Str, v : Opt({<<x>> : x \in Num}), vt : {<<>>}, vn : Opt({<<x>> : x \in {"nan"}}), g : Opt(Str), s : {<<>>},
     e : Opt({[k |-> "p", x |-> <<r>>] : r \in Ref}), sh : {<<>>}, geo : {<<>>, <<[m |-> <<>>, sh |-> <<>>]>>}]
Materials ==
    {[Plain EXCEPT !.Ka = <<x>>, !.Ni = y, !.map_Kd = p, !.decal = q, !.illum = <<i>>] :
        x \in Num, y \in Opt({"3ff0000000000000"}), p \in Opt(Str), q \in Opt({"a"}), i \in {"0", "2"}}

HasNaN(o) == \E n \in 1..Len(o.v) : o.v[n] = <<"nan">>
HasNaNs(o) == HasNaN(o) \/ o.vn # <<>>
\* With the sign of zero put aside, contents without NaN are equal when identical.
Zero(x) == IF x = "8000000000000000" THEN "0000000000000000" ELSE x
NormV(v) == [n \in 1..Len(v) |-> [c \in 1..Len(v[n]) |-> Zero(v[n][c])]]
Norm(o) == [o EXCEPT !.v = NormV(o.v)]
NormM(m) == [m EXCEPT !.Ka = <<Zero(m.Ka[1])>>]

VARIABLES kind, a, b
Init == kind \in {"object", "material"} /\ a = <<>> /\ b = <<>>
Next ==
    /\ a = <<>> /\ UNCHANGED kind
    /\ IF kind = "object" THEN a' \in Objects /\ b' \in Objects
       ELSE a' \in Materials /\ b' \in Materials

Laws ==
    a # <<>> =>
        IF kind = "object"
        THEN /\ SameObject(a, b) = SameObject(b, a)
             /\ SameObject(a, a) = ~HasNaNs(a)
             /\ SameObject(a, b) = (~HasNaNs(a) /\ ~HasNaNs(b) /\ Norm(a) = Norm(b))
        ELSE /\ SameMaterial(a, b) = SameMaterial(b, a)
             /\ SameMaterial(a, b) = (a.Ka # <<"nan">> /\ b.Ka # <<"nan">> /\ NormM(a) = NormM(b))
=============================================================================
