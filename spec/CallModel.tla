----------------------------- MODULE CallModel -----------------------------
(***************************************************************************)
(* All interleavings of calls from a few threads.  hist records the calls  *)
(* with their answers; whatever the order, no text has two answers and an  *)
(* answer once given is never taken back.                                  *)
(***************************************************************************)
EXTENDS CallSpec

CONSTANTS Threads, Texts, Answers
VARIABLE hist

Init ==
    /\ pending = [t \in Threads |-> 0]
    /\ memo = [x \in Texts |-> ""]
    /\ hist = {}

Next ==
    \/ \E t \in Threads, x \in Texts : Call(t, x) /\ UNCHANGED hist
    \/ \E t \in Threads, a \in Answers :
          Return(t, a) /\ hist' = hist \cup {<<pending[t], a>>}

TypeOK == pending \in [Threads -> Texts \cup {0}] /\ memo \in [Texts -> Answers \cup {""}]
OneAnswer == \A h, k \in hist : h[1] = k[1] => h = k
Remembered == \A h \in hist : memo[h[1]] = h[2]
Stable == [][\A x \in Texts : memo[x] # "" => memo'[x] = memo[x]]_<<pending, memo, hist>>
Spec == Init /\ [][Next]_<<pending, memo, hist>>
=============================================================================
