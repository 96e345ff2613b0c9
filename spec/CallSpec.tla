------------------------------ MODULE CallSpec ------------------------------
(***************************************************************************)
(* The library as its callers see it: a pure function from texts to        *)
(* answers.  Callers in several threads call it, through any of its entry  *)
(* points, and the calls overlap freely; the only state there is, is what  *)
(* has been learnt about the function so far.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    pending,   \* thread -> the text of its call in progress, or 0
    memo       \* text -> the answer it has always had so far, or ""

Call(th, x) ==
    /\ pending[th] = 0
    /\ pending' = [pending EXCEPT ![th] = x]
    /\ UNCHANGED memo

\* A call returns the one answer of its text, whenever and wherever it was made.
Return(th, a) ==
    /\ pending[th] # 0
    /\ memo[pending[th]] \in {"", a}
    /\ memo' = [memo EXCEPT ![pending[th]] = a]
    /\ pending' = [pending EXCEPT ![th] = 0]

Unreturnable(th, a) == pending[th] # 0 /\ memo[pending[th]] \notin {"", a}
=============================================================================
