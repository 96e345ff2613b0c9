----------------------------- MODULE CallTrace -----------------------------
(***************************************************************************)
(* Trace validation of calls: is each recorded history of calls one of a   *)
(* pure function?  A case is a history:                                    *)
(*    n    how many texts it uses, numbered from 1                         *)
(*    ev   the events: [x, how, a], a call of text x that was made as how  *)
(*         says and returned an answer with digest a                       *)
(* The calls of one history may have overlapped: a pure function cannot    *)
(* tell, so any order of the events will do.  Asking a parser again after  *)
(* it has read its text to the end is a call of the empty text.            *)
(***************************************************************************)
EXTENDS CallSpec, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, i, step, tally

C == Cases[case]
Ev == C.ev[i + 1]

Start(n) == pending' = [t \in {1} |-> 0] /\ memo' = [x \in 1..n |-> ""]

Init ==
    /\ case = 1 /\ i = 0 /\ step = 0 /\ tally = [calls |-> 0, first |-> 0]
    /\ pending = [t \in {1} |-> 0] /\ memo = [x \in 1..Cases[1].n |-> ""]

Begin ==
    /\ case <= Len(Cases) /\ i < Len(C.ev)
    /\ Call(1, Ev.x)
    /\ step' = step + 1 /\ UNCHANGED <<case, i, tally>>

End ==
    /\ case <= Len(Cases) /\ i < Len(C.ev)
    /\ Return(1, Ev.a)
    /\ i' = i + 1 /\ step' = step + 1
    /\ tally' = [tally EXCEPT !.calls = @ + 1,
                              !.first = IF memo[Ev.x] = "" THEN @ + 1 ELSE @]
    /\ UNCHANGED case

\* Not a behaviour of CallSpec: report the call, and go on without it.
Reject ==
    /\ case <= Len(Cases) /\ i < Len(C.ev)
    /\ Unreturnable(1, Ev.a)
    /\ PrintT(<<"MISMATCH", C.id, {"impure"}, i, Ev.how, Ev.a, Ev.x>>)
    /\ pending' = [pending EXCEPT ![1] = 0]
    /\ i' = i + 1 /\ step' = step + 1
    /\ UNCHANGED <<case, memo, tally>>

NextCase ==
    /\ case <= Len(Cases) /\ i = Len(C.ev)
    /\ case' = case + 1 /\ i' = 0 /\ step' = step + 1
    /\ UNCHANGED tally
    /\ IF case < Len(Cases) THEN Start(Cases[case + 1].n)
       ELSE PrintT(<<"TALLY", tally>>) /\ PrintT(<<"READ", case>>) /\ UNCHANGED <<pending, memo>>

Next == Begin \/ End \/ Reject \/ NextCase
TraceView == step
AllRead == TLCGet("stats").diameter = TLCGet("stats").distinct
=============================================================================
