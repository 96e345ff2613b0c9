------------------------------ MODULE ObjSpec ------------------------------
(***************************************************************************)
(* Reading a Wavefront OBJ text, one statement per step.                   *)
(*                                                                         *)
(* The reader is a deterministic machine that walks over a text and, for   *)
(* each statement, changes a small abstract state (how many vertices of    *)
(* each kind there are, which group, smoothing group and material are      *)
(* current) and puts out what the statement contributes to the result.     *)
(* The result of reading a whole text is the sequence of these outputs:    *)
(* ObjModel.tla assembles them into an object set and states the           *)
(* invariants; ObjTrace.tla compares them, step by step, with what the     *)
(* library returned for the same text.                                     *)
(*                                                                         *)
(* Steps happen only between complete lines (or once the text has ended),  *)
(* so that a text may also be fed to the machine line by line.             *)
(***************************************************************************)
EXTENDS Readers

VARIABLES
    text,    \* the input so far
    ended,   \* no more input is coming
    pos,     \* where in the text the reader stands
    line,    \* the number of the line it stands on
    phase,   \* "libs", "body", "done" or "failed"
    total,   \* [v, vt, vn]: vertices read from the file so far, of each kind
    base,    \* [v, vt, vn]: the same when the current object began
    cur,     \* the current object, see NoObject
    nobj,    \* objects completed
    nlib,    \* material libraries read
    fault,   \* what is wrong with the text, when phase = "failed"
    out      \* what the last step contributed to the result

objVars == <<text, ended, pos, line, phase, total, base, cur, nobj, nlib, fault, out>>

Zero3 == [v |-> 0, vt |-> 0, vn |-> 0]

NoObject ==
    [open |-> FALSE,   \* is there a current object?
     name |-> "",
     nel  |-> 0,       \* elements so far
     ngrp |-> 0,       \* size of the group set
     glo  |-> 0,       \* the current groups are glo .. ghi - 1 of the group set
     ghi  |-> 0,
     nsm  |-> 0,       \* size of the smoothing group set
     sm   |-> 0,       \* the current smoothing group
     used |-> FALSE,   \* has the object a material or an element?
     mat  |-> <<>>,    \* the current material: <<name>>, or <<>> for none
     run  |-> 0]       \* the first element that has the current material

NoOut   == [k |-> "none"]
NoFault == [kind |-> "", line |-> 0]

ObjInit(t, e) ==
    /\ text = t /\ ended = e
    /\ pos = 1 /\ line = 1 /\ phase = "libs"
    /\ total = Zero3 /\ base = Zero3
    /\ cur = NoObject /\ nobj = 0 /\ nlib = 0
    /\ fault = NoFault /\ out = NoOut

-----------------------------------------------------------------------------
(* Vertices *)

ReadVertex(s, p) ==        \* v x y z [w], w = 1 by default
    LET r == ReadReals[s, p, 3, <<>>]
    IN  IF r.err # "" THEN r ELSE ReadOptional[s, r.nxt, 1, "1", r.val]

ReadTexture(s, p) ==       \* vt u [v] [w], both 0 by default
    LET r == ReadReals[s, p, 1, <<>>]
    IN  IF r.err # "" THEN r ELSE ReadOptional[s, r.nxt, 2, "0", r.val]

ReadNormal(s, p) == ReadReals[s, p, 3, <<>>]   \* vn x y z

-----------------------------------------------------------------------------
(* References.  A positive number counts from the first vertex of the file,  *)
(* a negative one backwards from the latest.  Either way it must name a      *)
(* vertex of the current object that has been read already.                  *)

Target(lo, hi, n) == IF n > 0 THEN n - 1 ELSE hi + n

InRange(lo, hi, n) == n # 0 /\ Target(lo, hi, n) >= lo /\ Target(lo, hi, n) < hi

RefOf(w, kind, lo, hi) ==
    IF ~IsInt(w) THEN Bad("ExpectedInteger")
    ELSE LET n == IntVal(w)
         IN  IF InRange(lo[kind], hi[kind], n)
             THEN Good(Target(lo[kind], hi[kind], n) - lo[kind], 0)
             ELSE Bad("VTNIndexOutOfRange")

None == 0 - 1

\* w split at its slashes, from position i on
SlashesFrom[w \in STRING, i \in Nat, start \in Nat, acc \in Seq(STRING)] ==
    IF i > Len(w) THEN Append(acc, SubSeq(w, start, Len(w)))
    ELSE IF Ch(w, i) = "/" THEN SlashesFrom[w, i + 1, i + 1, Append(acc, SubSeq(w, start, i - 1))]
    ELSE SlashesFrom[w, i + 1, start, acc]

Parts(w) == SlashesFrom[w, 1, 1, <<>>]

Part(ps, i) == IF i <= Len(ps) THEN ps[i] ELSE ""

PartRef(ps, i, kind, lo, hi) ==
    IF Part(ps, i) = "" THEN Good(None, 0) ELSE RefOf(Part(ps, i), kind, lo, hi)

\* v, v/vt, v//vn or v/vt/vn.  An empty texture or normal part counts as absent.
ReadRef(w, lo, hi) ==
    LET ps == Parts(w)
        v  == PartRef(ps, 1, "v", lo, hi)
        vt == PartRef(ps, 2, "vt", lo, hi)
        vn == PartRef(ps, 3, "vn", lo, hi)
    IN  IF v.err # "" THEN v
        ELSE IF vt.err # "" THEN vt
        ELSE IF vn.err # "" THEN vn
        ELSE IF v.val = None \/ Len(ps) > 3 THEN Bad("ExpectedVTNIndex")
        ELSE Good(<<v.val, vt.val, vn.val>>, 0)

Form(r) == <<r[2] # None, r[3] # None>>
OneForm(rs) == \A i \in 1..Len(rs) : Form(rs[i]) = Form(rs[1])

Counts == [v : Nat, vt : Nat, vn : Nat]

\* The references ws[i] .. ws[j], or the error of the first bad one.  (By
\* halves, so that neither the recursion nor the concatenation grows long.)
RECURSIVE ReadRefs(_, _, _, _, _)
ReadRefs(ws, i, j, lo, hi) ==
    IF i > j THEN Good(<<>>, 0)
    ELSE IF i = j
    THEN LET r == ReadRef(ws[i], lo, hi) IN IF r.err # "" THEN r ELSE Good(<<r.val>>, 0)
    ELSE LET m == (i + j) \div 2
             a == ReadRefs(ws, i, m, lo, hi)
             b == ReadRefs(ws, m + 1, j, lo, hi)
         IN  IF a.err # "" THEN a ELSE IF b.err # "" THEN b ELSE Good(a.val \o b.val, 0)

RECURSIVE ReadPoints(_, _, _, _, _)
ReadPoints(ws, i, j, lo, hi) ==
    IF i > j THEN Good(<<>>, 0)
    ELSE IF i = j
    THEN LET r == RefOf(ws[i], "v", lo, hi)
         IN  IF r.err # "" THEN r ELSE Good(<<<<r.val, None, None>>>>, 0)
    ELSE LET m == (i + j) \div 2
             a == ReadPoints(ws, i, m, lo, hi)
             b == ReadPoints(ws, m + 1, j, lo, hi)
         IN  IF a.err # "" THEN a ELSE IF b.err # "" THEN b ELSE Good(a.val \o b.val, 0)

-----------------------------------------------------------------------------
(* Elements.  Points stand alone, a polyline becomes its segments and a      *)
(* polygon a fan of triangles around its first corner.                       *)

Missing(s, w) == IF Tok(s, w.nxt).t = EOT THEN "EndOfFile" ELSE "ExpectedInteger"

PointElements(s, p, lo, hi) ==
    LET w == Words(s, p)
        r == ReadPoints(w.ws, 1, Len(w.ws), lo, hi)
    IN  IF w.ws = <<>> THEN Bad(Missing(s, w))
        ELSE IF r.err # "" THEN r
        ELSE Good([i \in 1..Len(r.val) |-> [k |-> "p", x |-> <<r.val[i]>>]], w.nxt)

LineElements(s, p, lo, hi) ==
    LET w == Words(s, p)
        r == ReadRefs(w.ws, 1, Len(w.ws), lo, hi)
    IN  IF r.err # "" THEN r
        ELSE IF Len(w.ws) < 2 THEN Bad(Missing(s, w))
        ELSE IF ~OneForm(r.val) THEN Bad("EveryVTNIndexMustHaveTheSameFormForAGivenElement")
        ELSE Good([i \in 1..Len(r.val) - 1 |-> [k |-> "l", x |-> <<r.val[i], r.val[i + 1]>>]],
                  w.nxt)

FaceElements(s, p, lo, hi) ==
    LET w == Words(s, p)
        r == ReadRefs(w.ws, 1, Len(w.ws), lo, hi)
    IN  IF r.err # "" THEN r
        ELSE IF Len(w.ws) < 3 THEN Bad("EveryFaceElementMustHaveAtLeastThreeVertices")
        ELSE IF ~OneForm(r.val) THEN Bad("EveryVTNIndexMustHaveTheSameFormForAGivenElement")
        ELSE Good([i \in 1..Len(r.val) - 2 |->
                        [k |-> "f", x |-> <<r.val[1], r.val[i + 1], r.val[i + 2]>>]],
                  w.nxt)

Elements(kw, s, p, lo, hi) ==
    CASE kw = "p" -> PointElements(s, p, lo, hi)
      [] kw = "l" -> LineElements(s, p, lo, hi)
      [] kw = "f" -> FaceElements(s, p, lo, hi)

-----------------------------------------------------------------------------
(* The readers as constant functions, see Readers.tla. *)

VertexAt   == [a \in Places |-> ReadVertex(a[1], a[2])]
TextureAt  == [a \in Places |-> ReadTexture(a[1], a[2])]
NormalAt   == [a \in Places |-> ReadNormal(a[1], a[2])]
ElementsAt == [a \in {"p", "l", "f"} \X STRING \X Nat \X Counts \X Counts |->
                  Elements(a[1], a[2], a[3], a[4], a[5])]
NumberAt   == [w \in STRING |-> IF w = "off" THEN "0" ELSE IF IsNat(w) THEN Canonical(w) ELSE ""]

-----------------------------------------------------------------------------
(* Steps *)

Ready ==
    /\ phase \in {"libs", "body"}
    /\ IF ended THEN TRUE
       ELSE Len(text) > 0 /\ pos <= Len(text) /\ Ch(text, Len(text)) = "\n"

Fail(kind) ==
    /\ phase' = "failed"
    /\ fault' = [kind |-> kind, line |-> line]
    /\ out' = [k |-> "fail"]
    /\ UNCHANGED <<text, ended, pos, line, total, base, cur, nobj, nlib>>

\* an empty line, or the end of a line
NewLine(k) ==
    /\ k.t = NL
    /\ pos' = k.nxt /\ line' = line + 1
    /\ out' = NoOut
    /\ UNCHANGED <<text, ended, phase, total, base, cur, nobj, nlib, fault>>

\* blanks or a comment at the end of what has been fed so far
Idle(k) ==
    /\ k.t = EOT /\ ~ended /\ k.nxt # pos
    /\ pos' = k.nxt
    /\ out' = NoOut
    /\ UNCHANGED <<text, ended, line, phase, total, base, cur, nobj, nlib, fault>>

\* mtllib name ...        only before everything else
Library(k) ==
    /\ phase = "libs" /\ k.t = "mtllib"
    /\ \E w \in {WordsAt[text, k.nxt]} :
           /\ pos' = w.nxt
           /\ nlib' = nlib + Len(w.ws)
           /\ out' = [k |-> "lib", names |-> w.ws]
    /\ UNCHANGED <<text, ended, line, phase, total, base, cur, nobj, fault>>

LibrariesOver(k) ==
    /\ phase = "libs" /\ k.t \notin {"mtllib", NL, EOT}
    /\ phase' = "body" /\ out' = NoOut
    /\ UNCHANGED <<text, ended, pos, line, total, base, cur, nobj, nlib, fault>>

\* o name                 begins an object
Named(k) ==
    /\ ~cur.open /\ k.t = "o"
    /\ \E n \in {TokAt[text, k.nxt]} : \E e \in {TokAt[text, n.nxt]} :
           IF n.t = EOT THEN Fail("EndOfFile")
           ELSE IF n.t = NL THEN Fail("InvalidObjectStatement")
           ELSE IF e.t = EOT THEN Fail("EndOfFile")
           ELSE IF e.t # NL THEN Fail("ExpectedTagStatement")
           ELSE /\ pos' = n.nxt
                /\ cur' = [NoObject EXCEPT !.open = TRUE, !.name = n.t]
                /\ base' = total
                /\ out' = [k |-> "open", name |-> n.t]
                /\ UNCHANGED <<text, ended, line, phase, total, nobj, nlib, fault>>

\* any other statement where there is no object begins a nameless one
Nameless(k) ==
    /\ ~cur.open /\ k.t \notin {"o", NL, EOT}
    /\ cur' = [NoObject EXCEPT !.open = TRUE]
    /\ base' = total
    /\ out' = [k |-> "open", name |-> ""]
    /\ UNCHANGED <<text, ended, pos, line, phase, total, nobj, nlib, fault>>

Close(k) ==
    /\ cur.open /\ (k.t = "o" \/ (k.t = EOT /\ ended))
    /\ cur' = NoObject /\ nobj' = nobj + 1 /\ base' = total
    /\ out' = [k |-> "close", obj |-> cur, last |-> cur.used,
               n |-> [v  |-> total.v - base.v,
                      vt |-> total.vt - base.vt,
                      vn |-> total.vn - base.vn]]
    /\ UNCHANGED <<text, ended, pos, line, phase, total, nlib, fault>>

Finish(k) ==
    /\ ~cur.open /\ k.t = EOT /\ ended
    /\ phase' = "done" /\ out' = [k |-> "done"]
    /\ UNCHANGED <<text, ended, pos, line, total, base, cur, nobj, nlib, fault>>

AddVertex(kind, reading) == \E r \in {reading} :
    IF r.err # "" THEN Fail(r.err)
    ELSE /\ total' = [total EXCEPT ![kind] = @ + 1]
         /\ pos' = r.nxt
         /\ out' = [k |-> kind, c |-> r.val]
         /\ UNCHANGED <<text, ended, line, phase, base, cur, nobj, nlib, fault>>

Vertex(k)  == cur.open /\ k.t = "v"  /\ AddVertex("v", VertexAt[text, k.nxt])
Texture(k) == cur.open /\ k.t = "vt" /\ AddVertex("vt", TextureAt[text, k.nxt])
Normal(k)  == cur.open /\ k.t = "vn" /\ AddVertex("vn", NormalAt[text, k.nxt])

\* g name ...             without a name, elements go to the default group
GroupStmt(k) ==
    /\ cur.open /\ k.t = "g"
    /\ \E w \in {WordsAt[text, k.nxt]} :
           /\ pos' = w.nxt
           /\ cur' = [cur EXCEPT !.glo = cur.ngrp,
                                 !.ghi = cur.ngrp + Len(w.ws),
                                 !.ngrp = cur.ngrp + Len(w.ws)]
           /\ out' = [k |-> "group", names |-> w.ws]
    /\ UNCHANGED <<text, ended, line, phase, total, base, nobj, nlib, fault>>

\* s number | s off
Smooth(k) ==
    /\ cur.open /\ k.t = "s"
    /\ \E n \in {TokAt[text, k.nxt]} :
           IF n.t \in {NL, EOT} THEN Fail("SmoothingGroupDeclarationHasNoName")
           ELSE IF NumberAt[n.t] = "" THEN Fail("SmoothingGroupNameMustBeOffOrInteger")
           ELSE /\ pos' = n.nxt
                /\ cur' = [cur EXCEPT !.sm = cur.nsm, !.nsm = cur.nsm + 1]
                /\ out' = [k |-> "smooth", num |-> NumberAt[n.t]]
                /\ UNCHANGED <<text, ended, line, phase, total, base, nobj, nlib, fault>>

\* usemtl name            ends the run of elements of the previous material
Material(k) ==
    /\ cur.open /\ k.t = "usemtl"
    /\ \E n \in {TokAt[text, k.nxt]} :
           IF n.t \in {NL, EOT} THEN Fail("MaterialStatementHasNoName")
           ELSE /\ pos' = n.nxt
                /\ cur' = [cur EXCEPT !.mat = <<n.t>>, !.run = cur.nel, !.used = TRUE]
                /\ out' = IF cur.run < cur.nel
                          THEN [k |-> "geo", mat |-> cur.mat, lo |-> cur.run, hi |-> cur.nel]
                          ELSE NoOut
                /\ UNCHANGED <<text, ended, line, phase, total, base, nobj, nlib, fault>>

\* p, l or f              belongs to what is current
Element(k) ==
    /\ cur.open /\ k.t \in {"p", "l", "f"}
    /\ \E r \in {ElementsAt[k.t, text, k.nxt, base, total]} :
       LET dg == cur.glo = cur.ghi          \* no current group: the default one
           ds == cur.nsm = 0                \* no smoothing group yet: off
           c  == [cur EXCEPT !.ngrp = IF dg THEN @ + 1 ELSE @,
                             !.ghi = IF dg THEN @ + 1 ELSE @,
                             !.nsm = IF ds THEN 1 ELSE @,
                             !.used = TRUE,
                             !.nel = @ + Len(r.val)]
       IN  IF r.err # "" THEN Fail(r.err)
           ELSE /\ pos' = r.nxt
                /\ cur' = c
                /\ out' = [k |-> "elem", es |-> r.val,
                           glo |-> c.glo, ghi |-> c.ghi, sm |-> c.sm, mat |-> c.mat,
                           newgroup |-> dg, newsmooth |-> ds]
                /\ UNCHANGED <<text, ended, line, phase, total, base, nobj, nlib, fault>>

Statements == {"o", "g", "s", "usemtl", "v", "vt", "vn", "p", "l", "f"}

Unknown(k) ==
    /\ cur.open /\ k.t \notin Statements \cup {NL, EOT}
    /\ Fail("InvalidObjectStatement")

ObjStep ==
    /\ Ready
    /\ \E k \in {TokAt[text, pos]} :
           \/ NewLine(k) \/ Idle(k)
           \/ Library(k) \/ LibrariesOver(k)
           \/ phase = "body" /\ ( \/ Named(k) \/ Nameless(k) \/ Close(k)
                                  \/ Vertex(k) \/ Texture(k) \/ Normal(k)
                                  \/ GroupStmt(k) \/ Smooth(k) \/ Material(k) \/ Element(k)
                                  \/ Unknown(k) )
           \/ Finish(k)

=============================================================================
