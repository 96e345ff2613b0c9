------------------------------ MODULE MtlModel ------------------------------
(***************************************************************************)
(* The MTL reader with an environment that feeds it every text of a        *)
(* bounded family.  As ObjModel.                                           *)
(***************************************************************************)
EXTENDS MtlSpec, TLC, Json, IOUtils, FiniteSets

VARIABLES fed, result        \* result: the materials put out so far
vars == <<mtlVars, fed, result>>

Max == atoi(IOEnv.MAXFRAGS)

Family(p) ==
    CASE p = "fields" ->
           [pre |-> "newmtl a\n", lead |-> "", post |-> "",
            frags |-> {"newmtl b\n", "Ka 1 2 3\n", "Kd 4 5 6\n", "Ks 7 8 9\n", "Ke .1 .2 .3\n",
                       "Ns 10\n", "d .5\n", "Ni 1.5\n", "illum 0\n", "illum 1\n", "map_Ka p\n",
                       "map_Kd q\n", "map_Ks r\n", "map_Ke s\n", "map_Ns t\n", "bump u\n",
                       "map_Bump v\n", "disp w\n", "map_d x\n", "decal y\n", "Ka 9 8 7\n"}]
      [] p = "materials" ->
           [pre |-> "", lead |-> "", post |-> "",
            frags |-> {"newmtl a\n", "newmtl b\n", "Ka 1 2 3\n", "d .5\n", "d 1\n", "Ni 2\n", "illum 1\n",
                       "map_d x\n", "\n"}]
      [] p = "struct" ->
           [pre |-> "", lead |-> "newmtl", post |-> "",
            frags |-> {"newmtl", " a", "\n", " ", "#", "Ka", " 1", "map_Kd", "x"}]
      [] p = "illum" ->
           [pre |-> "newmtl a\n", lead |-> "illum ", post |-> "\n",
            frags |-> {"0", "1", "2", "3", "-", "+", ".", "9", " "}]
      [] p = "numbers" ->
           [pre |-> "newmtl a\n", lead |-> "", post |-> "\n",
            frags |-> {"Kd", "Ns", "d", "Ni", "Ke", " 1", " .5", "\n", " x", " 2e0"}]
      [] p = "maps" ->
           [pre |-> "newmtl a\n", lead |-> "", post |-> "",
            frags |-> {"map_Ka", "map_", "K", "e", "bump", "Bump", "disp", "decal", "map_d", " n", "\n"}]
      [] p = "lex" ->
           [pre |-> "", lead |-> "newmtl", post |-> "",
            frags |-> {"\t", " n", "\n", "\r", "#", "\\", "decal", "newmtl"}]
      [] p = "lines" ->
           [pre |-> "newmtl a\n", lead |-> "", post |-> "Ka 1 2",
            frags |-> {"\n", "\r", "\r\n", "# c", "d 1", " ", "decal a", "Ns 1"}]

F == Family(IOEnv.PROFILE)

Init == MtlInit(F.pre, FALSE) /\ fed = 0 /\ result = <<>>

Over == phase' \in {"done", "failed"}

Read ==
    /\ MtlStep
    /\ result' = IF out'.k = "material" THEN Append(result, out'.mat) ELSE result
    /\ UNCHANGED fed
    /\ IF Over THEN PrintT("T" \o ToJson(text)) ELSE TRUE

Lead == IF fed = 0 THEN F.lead ELSE ""

CanFeed == phase \in {"start", "in"} /\ ~ended /\ ~Ready

Feed ==
    /\ CanFeed /\ fed < Max
    /\ \E f \in F.frags : text' = text \o Lead \o f
    /\ fed' = fed + 1
    /\ UNCHANGED <<ended, pos, line, phase, mat, nmat, fault, out, result>>

EndText ==
    /\ CanFeed
    /\ text' = text \o Lead \o F.post /\ ended' = TRUE
    /\ UNCHANGED <<pos, line, phase, mat, nmat, fault, out, result, fed>>

Next == Read \/ Feed \/ EndText
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Read) /\ WF_vars(EndText)

-----------------------------------------------------------------------------

Fields == DOMAIN NoMaterial \ {"name"}

MaterialOK(m) ==
    /\ \A f \in Colors : Len(m[f]) = 3 /\ \A i \in 1..3 : IsReal(m[f][i])
    /\ \A f \in {"Ns", "d"} : Len(m[f]) = 1 /\ IsReal(m[f][1])
    /\ Len(m.Ni) <= 1 /\ \A i \in 1..Len(m.Ni) : IsReal(m.Ni[i])
    /\ m.illum \in {<<"0">>, <<"1">>, <<"2">>}
    /\ \A f \in Maps : Len(m[f]) <= 1

TypeOK ==
    /\ text \in STRING /\ ended \in BOOLEAN
    /\ pos \in 1..Len(text) + 1 /\ line \in Nat \ {0}
    /\ phase \in {"start", "in", "done", "failed"}
    /\ MaterialOK(mat)
    /\ \A i \in 1..Len(result) : MaterialOK(result[i]) /\ result[i].name # ""

Agrees == nmat = Len(result)

\* Nothing is carried over from one material to the next.
NoLeak == phase = "start" => mat = NoMaterial

Breaks[s \in STRING, i \in Nat, upto \in Nat, n \in Nat] ==
    IF i >= upto THEN n
    ELSE IF Ch(s, i) = "\n" \/ (Ch(s, i) = "\r" /\ ~(i < Len(s) /\ Ch(s, i + 1) = "\n"))
    THEN Breaks[s, i + 1, upto, n + 1] ELSE Breaks[s, i + 1, upto, n]

OnLine == line = 1 + Breaks[text, 1, pos, 0]
FaultLine == phase = "failed" => fault.line = line /\ fault.kind # ""
NeverStuck == Ready => ENABLED MtlStep

\* A statement changes one property of the current material (or begins one).
OneAtATime ==
    [][ out'.k = "set" => \A f \in Fields : f # out'.field => mat'[f] = mat[f] ]_vars
NameKept == [][ (phase = "in" /\ phase' = "in") => mat'.name = mat.name ]_vars
AppendOnly == [][ Len(result) <= Len(result') /\ SubSeq(result', 1, Len(result)) = result ]_vars
Final == [][phase # "failed"]_vars
Progress ==
    [][ \/ pos' > pos
        \/ pos' = pos /\ (fed' > fed \/ ended' # ended \/ phase' # phase) ]_vars
Termination == <>(phase \in {"done", "failed"})
=============================================================================
