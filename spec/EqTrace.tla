------------------------------ MODULE EqTrace -------------------------------
(***************************************************************************)
(* Trace validation of equality.  A case is two answers r and q, and:      *)
(*    eq, qe, ne   r == q, q == r and r != q, as the library says          *)
(*    copy         for each of the two: [same, eq]: whether its clone has  *)
(*                 the same content, and whether it is equal to it         *)
(*    items        pairs of parts: [k, a, b, eq, ne]                       *)
(*    ord          pairs of colours or illumination models, in order       *)
(***************************************************************************)
EXTENDS EqSpec, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, tally

C == Cases[case]
Flag(cond, aspect) == IF cond THEN {} ELSE {aspect}

Answers(c) == <<c.r, c.q>>

OrderOf(o) == IF o.k = "color" THEN ColourOrder(o.c) ELSE ModelOrder(o.a, o.b)

Aspects(c) ==
    IF c.st # "eq" \/ c.r.st \notin {"ok", "err"} \/ c.q.st \notin {"ok", "err"} THEN {"crash"}
    ELSE LET same == SameAnswer(c.r, c.q)
         IN       Flag(c.eq = same /\ c.qe = same, "equal")
             \cup Flag(c.ne = ~same, "unequal")
             \cup Flag(\A n \in 1..2 : c.copy[n].same, "clone")
             \cup Flag(\A n \in 1..2 : c.copy[n].eq = SameAnswer(Answers(c)[n], Answers(c)[n]), "equal")
             \cup {"equal-" \o c.items[n].k : n \in {m \in 1..Len(c.items) :
                      LET it == c.items[m]
                          s == SameItem(it.k, it.a, it.b)
                      IN  it.eq # s \/ it.ne = s}}
             \cup Flag(\A n \in 1..Len(c.ord) : c.ord[n].o = OrderOf(c.ord[n]), "order")

AspectsOf == [n \in Nat |-> Aspects(Cases[n])]     \* see Readers.tla

Init == case = 1 /\ tally = [equal |-> 0, unequal |-> 0, errors |-> 0, items |-> 0]

Next ==
    /\ case <= Len(Cases)
    /\ \E new \in {AspectsOf[case]} :
           IF new = {} THEN TRUE
           ELSE PrintT(<<"MISMATCH", C.id, new, 0, "", "">>)
    /\ case' = case + 1
    /\ tally' = IF C.st # "eq" THEN tally
                ELSE [equal   |-> tally.equal + (IF C.eq THEN 1 ELSE 0),
                      unequal |-> tally.unequal + (IF C.eq THEN 0 ELSE 1),
                      errors  |-> tally.errors + (IF C.r.st = "err" THEN 1 ELSE 0),
                      items   |-> tally.items + Len(C.items)]
    /\ IF case < Len(Cases) THEN TRUE
       ELSE PrintT(<<"TALLY", tally'>>) /\ PrintT(<<"READ", case>>)

AllRead == TLCGet("stats").diameter = TLCGet("stats").distinct
=============================================================================
