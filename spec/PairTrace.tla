----------------------------- MODULE PairTrace -----------------------------
(***************************************************************************)
(* Trace validation of relations between two readings.  A case has two     *)
(* texts s and t, the library's answers r and q, and a relation rel:       *)
(*   layout   s and t differ in layout only; the answers are the same      *)
(*   extend   t continues s, which ends with a line; t's answer extends    *)
(*            s's, and an error in s is the answer to t too                *)
(*   compose  t = s \o u, u begins with an object and refers to its own    *)
(*            vertices from the end; t's objects are s's, then u's         *)
(* Whether the texts are in the relation is itself judged here.            *)
(***************************************************************************)
EXTENDS Lexer, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, tally

C == Cases[case]
Flag(cond, aspect) == IF cond THEN {} ELSE {aspect}

\* --- layout ---------------------------------------------------------------

\* How many lines with a word on them the first n lines have.
FullLines[ts \in Seq(STRING), i \in Nat, n \in Nat, full \in BOOLEAN, acc \in Nat] ==
    IF n = 0 \/ i > Len(ts) THEN acc + (IF full THEN 1 ELSE 0)
    ELSE IF ts[i] = NL THEN FullLines[ts, i + 1, n - 1, FALSE, acc + (IF full THEN 1 ELSE 0)]
    ELSE FullLines[ts, i + 1, n, TRUE, acc]

SamePlace(s, m, t, n) ==
    FullLines[Tokens(s), 1, m, FALSE, 0] = FullLines[Tokens(t), 1, n, FALSE, 0]

Payload(x) == IF "mats" \in DOMAIN x THEN <<x.mats>> ELSE <<x.libs, x.objs>>

Layout(s, r, t, q) ==
    IF Essence(s) # Essence(t) THEN {"unrelated"}
    ELSE IF r.st # q.st THEN {"layout"}
    ELSE IF r.st = "ok" THEN Flag(Payload(r) = Payload(q), "layout")
    ELSE IF r.st = "err"
    THEN Flag(r.kind = q.kind, "layout-kind") \cup Flag(SamePlace(s, r.line, t, q.line), "layout-line")
    ELSE {"crash"}

\* --- extend ---------------------------------------------------------------

Extends(short, long) == Len(short) <= Len(long) /\ SubSeq(long, 1, Len(short)) = short

Full(geo) == SelectSeq(geo, LAMBDA g : Len(g.sh) > 0)

\* All but the last geometry stay; the last may have got more elements.
GeoExtends(a, b) ==
    LET x == Full(a)
        y == Full(b)
    IN  \/ x = <<>>
        \/ /\ Len(x) <= Len(y)
           /\ SubSeq(y, 1, Len(x) - 1) = SubSeq(x, 1, Len(x) - 1)
           /\ x[Len(x)].m = y[Len(x)].m
           /\ Extends(x[Len(x)].sh, y[Len(x)].sh)

ObjectExtends(a, b) ==
    /\ a.name = b.name
    /\ Extends(a.v, b.v) /\ Extends(a.vt, b.vt) /\ Extends(a.vn, b.vn)
    /\ Extends(a.g, b.g) /\ Extends(a.s, b.s)
    /\ Extends(a.e, b.e) /\ Extends(a.sh, b.sh)
    /\ GeoExtends(a.geo, b.geo)

LinesIn[s \in STRING, p \in Nat, n \in Nat] ==
    LET k == TokAt[s, p]
    IN  IF k.t = EOT THEN n ELSE LinesIn[s, k.nxt, IF k.t = NL THEN n + 1 ELSE n]

MaterialExtends(a, b) == a.name = b.name

ExtendOk(r, q) ==
    IF "mats" \in DOMAIN r
    THEN LET n == Len(r.mats)
         IN  /\ n <= Len(q.mats)
             /\ \A j \in 1..n - 1 : r.mats[j] = q.mats[j]
             /\ n > 0 => MaterialExtends(r.mats[n], q.mats[n])
    ELSE LET n == Len(r.objs)
         IN  /\ Extends(r.libs, q.libs)
             /\ n <= Len(q.objs)
             /\ \A j \in 1..n - 1 : r.objs[j] = q.objs[j]
             /\ n > 0 => ObjectExtends(r.objs[n], q.objs[n])

Extend(s, r, t, q) ==
    IF ~(Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s /\ (s = "" \/ Ch(s, Len(s)) = "\n"))
    THEN {"unrelated"}
    ELSE IF r.st = "err"
    THEN Flag(q.st = "err" /\ q.line = r.line /\ q.kind = r.kind, "error-final")
    ELSE IF r.st # "ok" THEN {"crash"}
    ELSE IF q.st = "ok" THEN Flag(ExtendOk(r, q), "extend")
    ELSE IF q.st = "err" THEN Flag(q.line > LinesIn[s, 1, 0], "error-early")
    ELSE {"crash"}

\* --- compose --------------------------------------------------------------

Compose(s, r, t, q, u, w) ==
    IF ~(t = s \o u /\ Tok(u, 1).t = "o" /\ r.st = "ok" /\ w.st = "ok") THEN {"unrelated"}
    ELSE IF q.st # "ok" THEN {"compose"}
    ELSE Flag(q.libs = r.libs /\ q.objs = r.objs \o w.objs, "compose")

\* --------------------------------------------------------------------------

Aspects(c) ==
    CASE c.rel = "layout"  -> Layout(c.s, c.r, c.t, c.q)
      [] c.rel = "extend"  -> Extend(c.s, c.r, c.t, c.q)
      [] c.rel = "compose" -> Compose(c.s, c.r, c.t, c.q, c.u, c.w)

AspectsOf == [n \in Nat |-> Aspects(Cases[n])]     \* see Readers.tla

Init == case = 1 /\ tally = [layout |-> 0, extend |-> 0, compose |-> 0]

Next ==
    /\ case <= Len(Cases)
    /\ \E new \in {AspectsOf[case]} :
           IF new = {} THEN TRUE
           ELSE PrintT(<<"MISMATCH", C.id, new, 0, C.rel, "">>)
    /\ case' = case + 1
    /\ tally' = [tally EXCEPT ![C.rel] = @ + 1]
    /\ IF case < Len(Cases) THEN TRUE
       ELSE PrintT(<<"TALLY", tally'>>) /\ PrintT(<<"READ", case>>)

AllRead == TLCGet("stats").diameter = TLCGet("stats").distinct
=============================================================================
