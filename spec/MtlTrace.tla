------------------------------ MODULE MtlTrace ------------------------------
(***************************************************************************)
(* Trace validation for the MTL reader.  As ObjTrace: the machine reads    *)
(* each recorded text, and each material it puts out is compared with the  *)
(* library's.                                                              *)
(***************************************************************************)
EXTENDS MtlSpec, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, step, aspects, tally
traceVars == <<case, step, aspects, tally>>

R == Cases[case].r

Val(w) ==
    LET n == Len(w)
    IN  Cases[case].fl[IF n < 2 THEN w ELSE SubSeq(w, n - 1, n)][w]

Vals(ws) == [i \in 1..Len(ws) |-> Val(ws[i])]

Flag(cond, aspect) == IF cond THEN {} ELSE {aspect}
Has(q, i) == i >= 1 /\ i <= Len(q)

RMat == R.mats[nmat + 1]

MaterialAspects(m) ==
    IF ~Has(R.mats, nmat + 1) THEN {"mat-missing"}
    ELSE      Flag(RMat.name = m.name, "mat-name")
         \cup UNION {Flag(RMat[f] = Vals(m[f]), "mat-" \o f) : f \in Colors \cup Scalars}
         \cup UNION {Flag(RMat[f] = m[f], "mat-" \o f) : f \in Maps \cup {"illum"}}

OutputAspects(o) ==
    IF R.st # "ok" THEN {}
    ELSE CASE o.k = "material" -> MaterialAspects(o.mat)
           [] o.k = "done" -> Flag(Len(R.mats) = nmat, "mat-count")
           [] OTHER -> {}

OutcomeAspects ==
    CASE phase = "done" /\ R.st = "ok"    -> {}
      [] phase = "done" /\ R.st = "err"   -> {"rejected"}
      [] phase = "failed" /\ R.st = "ok"  -> {"accepted-" \o fault.kind}
      [] phase = "failed" /\ R.st = "err" ->
            Flag(R.line = fault.line, "err-line") \cup Flag(R.kind = fault.kind, "err-kind")
      [] OTHER -> {"crash"} \cup (IF phase = "done" THEN {"rejected"} ELSE {})

Report(new) ==
    IF new = {} THEN TRUE
    ELSE PrintT(<<"MISMATCH", Cases[case].id, new, line, phase, fault.kind>>)

TraceInit ==
    /\ case = 1 /\ step = 0 /\ aspects = {}
    /\ tally = [k \in {"open", "material", "set", "done", "fail", "none"} |-> 0]
    /\ MtlInit(Cases[1].s, TRUE)

Read ==
    /\ MtlStep
    /\ step' = step + 1
    /\ \E new \in {OutputAspects(out') \ aspects} :
           aspects' = aspects \cup new /\ Report(new)
    /\ tally' = [tally EXCEPT ![out'.k] = @ + 1]
    /\ UNCHANGED case

NextCase ==
    /\ phase \in {"done", "failed"} /\ case <= Len(Cases)
    /\ Report(OutcomeAspects \ aspects)
    /\ case' = case + 1 /\ step' = step + 1 /\ aspects' = {}
    /\ UNCHANGED tally
    /\ IF case < Len(Cases)
       THEN /\ text' = Cases[case + 1].s /\ ended' = TRUE
            /\ pos' = 1 /\ line' = 1 /\ phase' = "start"
            /\ mat' = NoMaterial /\ nmat' = 0
            /\ fault' = NoFault /\ out' = NoOut
       ELSE PrintT(<<"TALLY", tally>>) /\ PrintT(<<"READ", case>>) /\ phase' = "closed"
            /\ UNCHANGED <<text, ended, pos, line, mat, nmat, fault, out>>

TraceNext == Read \/ NextCase
TraceView == step
AllRead == TLCGet("stats").diameter = TLCGet("stats").distinct
=============================================================================
