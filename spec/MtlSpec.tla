------------------------------ MODULE MtlSpec ------------------------------
(***************************************************************************)
(* Reading a Wavefront MTL text, one statement per step.                   *)
(*                                                                         *)
(* A deterministic machine, like that of ObjSpec.  Its state is the        *)
(* current material: for each property the words of the statement that     *)
(* gave it last, or its default.  A material is put out when the next one  *)
(* begins or the text ends.                                                *)
(***************************************************************************)
EXTENDS Readers

VARIABLES
    text, ended, pos, line,    \* as in ObjSpec
    phase,   \* "start" (no material yet), "in", "done" or "failed"
    mat,     \* the current material, see Fresh
    nmat,    \* materials completed
    fault, out

mtlVars == <<text, ended, pos, line, phase, mat, nmat, fault, out>>

Colors  == {"Ka", "Kd", "Ks", "Ke"}
Scalars == {"Ns", "d", "Ni"}
Maps    == {"map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "bump", "disp", "map_d", "decal"}

\* Two keywords name the bump map.
FieldOf(keyword) == IF keyword = "map_Bump" THEN "bump" ELSE keyword

Black == <<"0", "0", "0">>

\* A material of which only the name is known.
Fresh(name) ==
    [name |-> name,
     Ka |-> Black, Kd |-> Black, Ks |-> Black, Ke |-> Black,
     Ns |-> <<"0">>, d |-> <<"1">>, Ni |-> <<>>, illum |-> <<"2">>,
     map_Ka |-> <<>>, map_Kd |-> <<>>, map_Ks |-> <<>>, map_Ke |-> <<>>, map_Ns |-> <<>>,
     bump |-> <<>>, disp |-> <<>>, map_d |-> <<>>, decal |-> <<>>]

NoMaterial == Fresh("")
NoOut   == [k |-> "none"]
NoFault == [kind |-> "", line |-> 0]

MtlInit(t, e) ==
    /\ text = t /\ ended = e
    /\ pos = 1 /\ line = 1 /\ phase = "start"
    /\ mat = NoMaterial /\ nmat = 0
    /\ fault = NoFault /\ out = NoOut

Ready ==
    /\ phase \in {"start", "in"}
    /\ IF ended THEN TRUE
       ELSE Len(text) > 0 /\ pos <= Len(text) /\ Ch(text, Len(text)) = "\n"

Fail(kind) ==
    /\ phase' = "failed"
    /\ fault' = [kind |-> kind, line |-> line]
    /\ out' = [k |-> "fail"]
    /\ UNCHANGED <<text, ended, pos, line, mat, nmat>>

NewLine(k) ==
    /\ k.t = NL
    /\ pos' = k.nxt /\ line' = line + 1
    /\ out' = NoOut
    /\ UNCHANGED <<text, ended, phase, mat, nmat, fault>>

\* newmtl name            begins a material
NewMaterial(k) ==
    /\ phase = "start" /\ k.t = "newmtl"
    /\ \E n \in {TokAt[text, k.nxt]} :
           IF n.t = EOT THEN Fail("EndOfFile")
           ELSE IF n.t = NL THEN Fail("ErrorParsingMaterial")
           ELSE /\ phase' = "in" /\ pos' = n.nxt
                /\ mat' = Fresh(n.t)
                /\ out' = [k |-> "open", name |-> n.t]
                /\ UNCHANGED <<text, ended, line, nmat, fault>>

Close(k) ==
    /\ phase = "in" /\ (IF k.t = "newmtl" THEN TRUE ELSE k.t = EOT /\ ended)
    /\ phase' = "start"
    /\ nmat' = nmat + 1 /\ mat' = NoMaterial
    /\ out' = [k |-> "material", mat |-> mat]
    /\ UNCHANGED <<text, ended, pos, line, fault>>

Finish(k) ==
    /\ phase = "start" /\ k.t = EOT /\ ended
    /\ phase' = "done" /\ out' = [k |-> "done"]
    /\ UNCHANGED <<text, ended, pos, line, mat, nmat, fault>>

\* A statement sets its property, whatever it was before, and nothing else.
Set(field, val, nxt) ==
    /\ mat' = [mat EXCEPT ![field] = val]
    /\ pos' = nxt
    /\ out' = [k |-> "set", field |-> field]
    /\ UNCHANGED <<text, ended, line, phase, nmat, fault>>

\* Ka r g b | Kd ... | Ks ... | Ke ... | Ns x | d x | Ni x
Number(k) ==
    /\ phase = "in" /\ k.t \in Colors \cup Scalars
    /\ \E r \in {RealsAt[text, k.nxt, IF k.t \in Colors THEN 3 ELSE 1]} :
           IF r.err # "" THEN Fail(r.err) ELSE Set(k.t, r.val, r.nxt)

\* illum 0 | illum 1 | illum 2
IllumAt == [w \in STRING |-> IF IsNat(w) THEN Canonical(w) ELSE ""]

Illumination(k) ==
    /\ phase = "in" /\ k.t = "illum"
    /\ \E n \in {TokAt[text, k.nxt]} :
           IF n.t = EOT THEN Fail("EndOfFile")
           ELSE IF IllumAt[n.t] = "" THEN Fail("ExpectedInteger")
           ELSE IF IllumAt[n.t] \notin {"0", "1", "2"} THEN Fail("UnknownIlluminationModel")
           ELSE Set("illum", <<IllumAt[n.t]>>, n.nxt)

\* map_Ka name | ... | bump name | map_Bump name | disp name | decal name
Map(k) ==
    /\ phase = "in" /\ FieldOf(k.t) \in Maps
    /\ \E n \in {TokAt[text, k.nxt]} :
           IF n.t = EOT THEN Fail("EndOfFile")
           ELSE IF n.t = NL THEN Fail("ErrorParsingMaterial")
           ELSE Set(FieldOf(k.t), <<n.t>>, n.nxt)

Known == Colors \cup Scalars \cup Maps \cup {"map_Bump", "illum", "newmtl"}

Unknown(k) ==
    /\ IF phase = "in" THEN k.t \notin Known \cup {NL, EOT} ELSE k.t \notin {"newmtl", NL, EOT}
    /\ Fail(IF phase = "in" THEN "ErrorParsingMaterial" ELSE "ExpectedEndOfInput")

\* blanks or a comment at the end of what has been fed so far
Idle(k) ==
    /\ k.t = EOT /\ ~ended /\ k.nxt # pos
    /\ pos' = k.nxt
    /\ out' = NoOut
    /\ UNCHANGED <<text, ended, line, phase, mat, nmat, fault>>

MtlStep ==
    /\ Ready
    /\ \E k \in {TokAt[text, pos]} :
           \/ NewLine(k) \/ Idle(k)
           \/ NewMaterial(k) \/ Close(k) \/ Finish(k)
           \/ Number(k) \/ Illumination(k) \/ Map(k)
           \/ Unknown(k)
=============================================================================
