------------------------------ MODULE ObjTrace ------------------------------
(***************************************************************************)
(* Trace validation for the OBJ reader: is what the library returned for   *)
(* each recorded text a behaviour of ObjSpec?                              *)
(*                                                                         *)
(* The file named by the environment variable CASES has one JSON record    *)
(* per line:                                                               *)
(*    id    the case's number                                              *)
(*    s     the text given to the library                                  *)
(*    r     what the library did: st = "ok" with the whole object set,     *)
(*          "err" with line and kind, or "panic"/"abort"/"timeout"         *)
(*    fl    the double each real of the text denotes, as a bit pattern     *)
(*          (bucketed by the last two characters, for speed)               *)
(* The machine of ObjSpec reads s.  Each output is compared with the       *)
(* matching part of r as soon as it is made, so only counters are kept     *)
(* however large the text; each disagreement is named by an aspect, which  *)
(* the driver maps to properties.  A text is finished, and the next one    *)
(* begun, when the machine is done or has failed.                          *)
(***************************************************************************)
EXTENDS ObjSpec, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES
    case,    \* which case is being read
    step,    \* steps taken, over all cases
    ngeo,    \* how many of the current object's geometries have been compared
    seen,    \* the kinds of output seen in this case
    aspects, \* the aspects found to disagree in this case
    tally    \* outputs by kind, over all cases (what was covered)

traceVars == <<case, step, ngeo, seen, aspects, tally>>

R == Cases[case].r

\* The double that the real w denotes.
Val(w) ==
    LET n == Len(w)
    IN  Cases[case].fl[IF n < 2 THEN w ELSE SubSeq(w, n - 1, n)][w]

Vals(ws) == [i \in 1..Len(ws) |-> Val(ws[i])]

Flag(cond, aspect) == IF cond THEN {} ELSE {aspect}

Has(q, i) == i >= 1 /\ i <= Len(q)

RObj == R.objs[nobj + 1]          \* the object being read, as the library has it

\* The first of the library's geometries from number i on that has elements.
RECURSIVE GeoFrom(_, _)
GeoFrom(geo, i) ==
    IF i <= Len(geo) /\ Len(geo[i].sh) = 0 THEN GeoFrom(geo, i + 1) ELSE i

Upto(lo, hi) == [i \in 1..(hi - lo) |-> lo + i - 1]

GeoAgrees(i, mat, lo, hi) ==
    /\ Has(RObj.geo, i)
    /\ RObj.geo[i].m = mat
    /\ RObj.geo[i].sh = Upto(lo, hi)

\* The names of the groups that the library gives shape sh.
Named_(sh) == [i \in 1..Len(sh.g) |->
                 IF Has(RObj.g, sh.g[i] + 1) THEN RObj.g[sh.g[i] + 1] ELSE "(no such group)"]

\* --- the comparison of one output with the library's result --------------

VertexAspects(o, kind, mine, theirs) ==
    LET i == mine + 1
    IN  IF ~Has(theirs, i) THEN {"coord-" \o kind}
        ELSE IF theirs[i] = Vals(o.c) THEN {}
        ELSE {"value-" \o kind}

\* Corners that differ: either the references were resolved to other vertices
\* than the statement names (elem-index), or the statement was taken apart
\* differently (elem-order); both, where the result does not tell.
CornerAspects(mine, theirs) ==      \* sequences of elements of one length
    LET Places2 == {<<i, c>> : i \in 1..Len(mine), c \in 1..3}
        Real == {a \in Places2 : a[2] <= Len(mine[a[1]].x)}
        M(a) == mine[a[1]].x[a[2]]
        T(a) == theirs[a[1]].x[a[2]]
        named == {M(a) : a \in Real}
        stray == \E a \in Real : T(a) \notin named
        consistent == \A a \in Real : \A b \in Real : M(a) = M(b) => T(a) = T(b)
    IN  IF Len(mine) > 60 THEN {"elem-index", "elem-order"}
        ELSE (IF stray \/ consistent THEN {"elem-index"} ELSE {}) \cup
             (IF ~stray \/ ~consistent THEN {"elem-order"} ELSE {})

ElemAspects(o) ==
    LET first == cur.nel
        n == Len(o.es)
        E(i) == RObj.e[first + i]
        S(i) == RObj.sh[first + i]
        has == \A i \in 1..n : Has(RObj.e, first + i)
        hasS == \A i \in 1..n : Has(RObj.sh, first + i)
        mine == SubSeq(RObj.g, o.glo + 1, o.ghi)
    IN  IF ~has THEN {"elem-missing"}
        ELSE Flag(\A i \in 1..n : E(i).k = o.es[i].k /\ Len(E(i).x) = Len(o.es[i].x), "elem-kind")
        \cup Flag(\A i \in 1..n : Len(E(i).x) = Len(o.es[i].x) =>
                       \A c \in 1..Len(o.es[i].x) : Form(E(i).x[c]) = Form(o.es[i].x[c]), "elem-form")
        \cup (IF \A i \in 1..n : E(i).x = o.es[i].x THEN {}
              ELSE IF \A i \in 1..n : Len(E(i).x) = Len(o.es[i].x)
              THEN CornerAspects(o.es, SubSeq(RObj.e, first + 1, first + n))
              ELSE {"elem-order"})
        \cup (IF ~hasS THEN {"shape-missing"}
              ELSE Flag(\A i \in 1..n : S(i).e = first + i - 1, "shape-element")
              \cup Flag(o.ghi <= Len(RObj.g) /\ \A i \in 1..n : Named_(S(i)) = mine, "shape-group")
              \cup Flag(\A i \in 1..n : S(i).s = o.sm /\ Has(RObj.s, S(i).s + 1), "shape-smooth"))
        \cup (IF o.newgroup
              THEN Flag(Has(RObj.g, o.ghi) /\ RObj.g[o.ghi] = "default", "group-set") ELSE {})
        \cup (IF o.newsmooth
              THEN Flag(Has(RObj.s, 1) /\ RObj.s[1] = "0", "smooth-set") ELSE {})

GroupAspects(o) ==
    Flag(\A i \in 1..Len(o.names) :
            Has(RObj.g, cur.ngrp + i) /\ RObj.g[cur.ngrp + i] = o.names[i], "group-set")

SmoothAspects(o) ==
    Flag(Has(RObj.s, cur.nsm + 1) /\ RObj.s[cur.nsm + 1] = o.num, "smooth-set")

CloseAspects(o) ==
    LET c == o.obj
        pending == c.run < c.nel
        next == IF pending THEN GeoFrom(RObj.geo, ngeo + 1) ELSE ngeo
    IN       Flag(RObj.name = c.name, "name")
        \cup Flag(Len(RObj.v) = o.n.v, "coord-v")
        \cup Flag(Len(RObj.vt) = o.n.vt, "coord-vt")
        \cup Flag(Len(RObj.vn) = o.n.vn, "coord-vn")
        \cup Flag(Len(RObj.g) = c.ngrp, "group-set")
        \cup Flag(Len(RObj.s) = c.nsm, "smooth-set")
        \cup Flag(Len(RObj.e) = c.nel, "elem-count")
        \cup Flag(Len(RObj.sh) = c.nel, "shape-count")
        \cup (IF pending THEN Flag(GeoAgrees(next, c.mat, c.run, c.nel), "geometry") ELSE {})
        \cup Flag(GeoFrom(RObj.geo, next + 1) > Len(RObj.geo), "geometry")

\* References of the library's result that lead nowhere, whatever the text was.
RefOk(x, ob) ==
    /\ x[1] >= 0 /\ x[1] < Len(ob.v)
    /\ x[2] < Len(ob.vt)
    /\ x[3] < Len(ob.vn)

Dangling(ob) ==
    \/ \E i \in 1..Len(ob.e) : \E c \in 1..Len(ob.e[i].x) : ~RefOk(ob.e[i].x[c], ob)
    \/ \E i \in 1..Len(ob.sh) :
          \/ ob.sh[i].e >= Len(ob.e)
          \/ ob.sh[i].s >= Len(ob.s)
          \/ \E g \in 1..Len(ob.sh[i].g) : ob.sh[i].g[g] >= Len(ob.g)
    \/ \E i \in 1..Len(ob.geo) : \E n \in 1..Len(ob.geo[i].sh) : ob.geo[i].sh[n] >= Len(ob.sh)

OutputAspects(o) ==
    IF R.st # "ok" THEN {}
    ELSE IF o.k = "lib"
    THEN Flag(\A i \in 1..Len(o.names) : Has(R.libs, nlib + i) /\ R.libs[nlib + i] = o.names[i], "lib")
    ELSE IF o.k = "open"
    THEN Flag(Has(R.objs, nobj + 1), "object-missing")
    ELSE IF o.k = "done"
    THEN Flag(Len(R.libs) = nlib, "lib") \cup Flag(Len(R.objs) = nobj, "object-count")
    ELSE IF o.k \in {"none", "fail"} \/ ~Has(R.objs, nobj + 1)
    THEN {}
    ELSE CASE o.k = "v"      -> VertexAspects(o, "v", total.v - base.v, RObj.v)
           [] o.k = "vt"     -> VertexAspects(o, "vt", total.vt - base.vt, RObj.vt)
           [] o.k = "vn"     -> VertexAspects(o, "vn", total.vn - base.vn, RObj.vn)
           [] o.k = "elem"   -> ElemAspects(o)
           [] o.k = "group"  -> GroupAspects(o)
           [] o.k = "smooth" -> SmoothAspects(o)
           [] o.k = "geo"    -> Flag(GeoAgrees(GeoFrom(RObj.geo, ngeo + 1), o.mat, o.lo, o.hi), "geometry")
           [] o.k = "close"  -> CloseAspects(o)

\* The text of an error says where it is.
Begins(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t

OutcomeAspects ==
    LET danglers == IF R.st = "ok" /\ \E j \in 1..Len(R.objs) : Dangling(R.objs[j])
                    THEN {"dangling"} ELSE {}
    IN  danglers \cup
        CASE phase = "done" /\ R.st = "ok"    -> {}
          [] phase = "done" /\ R.st = "err"   -> {"rejected"}
          [] phase = "failed" /\ R.st = "ok"  -> {"accepted-" \o fault.kind}
          [] phase = "failed" /\ R.st = "err" ->
                Flag(R.line = fault.line, "err-line") \cup Flag(R.kind = fault.kind, "err-kind")
                \cup Flag(Begins(R.disp, "Parse error at line " \o ToString(R.line) \o ": "), "err-text")
          [] OTHER -> {"crash"} \cup (IF phase = "done" THEN {"rejected"} ELSE {})

\* --- the trace machine ----------------------------------------------------

Report(new) ==
    IF new = {} THEN TRUE
    ELSE PrintT(<<"MISMATCH", Cases[case].id, new, line, phase, fault.kind, seen>>)

TraceInit ==
    /\ case = 1 /\ step = 0 /\ ngeo = 0 /\ seen = {} /\ aspects = {}
    /\ tally = [k \in {"lib", "open", "close", "done", "fail", "v", "vt", "vn", "elem", "group",
                       "smooth", "geo", "none"} |-> 0]
    /\ ObjInit(Cases[1].s, TRUE)

Read ==
    /\ ObjStep
    /\ step' = step + 1
    /\ \E new \in {OutputAspects(out') \ aspects} :
           aspects' = aspects \cup new /\ Report(new)
    /\ seen' = seen \cup {out'.k}
    /\ ngeo' = IF out'.k \in {"open", "close"} THEN 0
               ELSE IF out'.k = "geo" /\ R.st = "ok" /\ Has(R.objs, nobj + 1)
               THEN GeoFrom(RObj.geo, ngeo + 1) ELSE ngeo
    /\ tally' = [tally EXCEPT ![out'.k] = @ + 1]
    /\ UNCHANGED case

NextCase ==
    /\ phase \in {"done", "failed"} /\ case <= Len(Cases)
    /\ Report(OutcomeAspects \ aspects)
    /\ case' = case + 1 /\ step' = step + 1
    /\ ngeo' = 0 /\ seen' = {} /\ aspects' = {}
    /\ UNCHANGED tally
    /\ IF case < Len(Cases)
       THEN /\ text' = Cases[case + 1].s /\ ended' = TRUE
            /\ pos' = 1 /\ line' = 1 /\ phase' = "libs"
            /\ total' = Zero3 /\ base' = Zero3
            /\ cur' = NoObject /\ nobj' = 0 /\ nlib' = 0
            /\ fault' = NoFault /\ out' = NoOut
       ELSE PrintT(<<"TALLY", tally>>) /\ PrintT(<<"READ", case>>) /\ phase' = "closed"
            /\ UNCHANGED <<text, ended, pos, line, total, base, cur, nobj, nlib, fault, out>>

TraceNext == Read \/ NextCase

TraceView == step

\* Every case was read to its end: nothing was skipped, the machine never stuck.
\* (The driver also insists on READ, which only the last case's end prints.)
AllRead == TLCGet("stats").diameter = TLCGet("stats").distinct
=============================================================================
