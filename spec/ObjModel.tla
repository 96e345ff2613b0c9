------------------------------ MODULE ObjModel ------------------------------
(***************************************************************************)
(* The OBJ reader together with an environment that feeds it every text of *)
(* a bounded family, fragment by fragment.  The outputs of the reader are  *)
(* assembled into the object set it denotes, on which the guarantees of    *)
(* the library are stated as invariants.                                   *)
(*                                                                         *)
(* A family (PROFILE) is a beginning, a set of fragments, an ending and a  *)
(* bound (MAXFRAGS) on the number of fragments in between.  Feeding stops  *)
(* when the reader fails.  Every text is printed when its reading is over; *)
(* the driver replays all of them on the library and has the answers       *)
(* judged by ObjTrace.                                                     *)
(***************************************************************************)
EXTENDS ObjSpec, TLC, Json, IOUtils, FiniteSets

VARIABLES
    fed,      \* fragments fed so far
    result    \* the object set so far

vars == <<objVars, fed, result>>

Max == atoi(IOEnv.MAXFRAGS)

Box == "v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 1 2\nvt 3\nvn 1 2 3\nvn 4 5 6\n"

Family(p) ==
    CASE p = "refs" ->
           [pre |-> "v 1 2 3\nvt 1\nvn 1 2 3\n", lead |-> "", post |-> "",
            frags |-> {"v 4 5 6\n", "vt 7\n", "vn 8 9 1\n", "o b\n", "p 1 -1\n", "p 2\n", "p -2\n",
                       "f -1/-1 1/1 -1/1\n", "l -1//-1 1//1\n", "f 1 -1 2\n", "f -1/-1/-1 2/2/2 1/1/1\n"}]
      [] p = "objects" ->
           [pre |-> "", lead |-> "", post |-> "",
            frags |-> {"mtllib m n\n", "mtllib\n", "o a\n", "o b\n", "v 1 2 3\n", "p -1\n", "p 1\n",
                       "g\n", "\n", "usemtl x\n"}]
      [] p = "leak" ->
           [pre |-> "v 1 2 3\n", lead |-> "", post |-> "o z\nv 4 5 6\np -1\n",
            frags |-> {"g a b\n", "s 3\n", "usemtl x\n", "p -1\n", "o b\n", "v 7 8 9\n", "g\n"}]
      [] p = "groups" ->
           [pre |-> "v 1 2 3\n", lead |-> "", post |-> "",
            frags |-> {"g a\n", "g b a\n", "g\n", "g default\n", "p 1\n", "f 1 1 1 1\n", "s 1\n"}]
      [] p = "smooth" ->
           [pre |-> "v 1 2 3\n", lead |-> "", post |-> "",
            frags |-> {"s 1\n", "s 2\n", "s off\n", "s 0\n", "p 1\n", "l 1 1 1\n", "g a\n"}]
      [] p = "materials" ->
           [pre |-> "v 1 2 3\n", lead |-> "", post |-> "",
            frags |-> {"usemtl x\n", "usemtl y\n", "p 1\n", "f 1 1 1 1\n", "g a\n", "s 1\n",
                       "v 4 5 6\n"}]
      [] p = "mixed" ->
           [pre |-> "v 1 2 3\n", lead |-> "", post |-> "",
            frags |-> {"usemtl x\n", "usemtl y\n", "p 1 -1\n", "g a\n", "g b c\n", "g\n", "s 1\n",
                       "s off\n", "o b\n", "v 4 5 6\n", "l -1 -1\n"}]
      [] p = "face" ->
           [pre |-> Box, lead |-> "f", post |-> "\n",
            frags |-> {" 1", " 2", " -1", " 3/1", " 2/2", " 1//2", " 2/1/1", " 4"}]
      [] p = "polyline" ->
           [pre |-> Box, lead |-> "l", post |-> "\n",
            frags |-> {" 1", " 2", " -1", " 3/1", " 2/2", " 1//2", " 2/1/1", " 0"}]
      [] p = "points" ->
           [pre |-> Box, lead |-> "p", post |-> "\n",
            frags |-> {" 1", " 2", " 3", " -1", " -3", " 4", " 1/1", " -4"}]
      [] p = "slash" ->
           [pre |-> Box, lead |-> "l ", post |-> "\n", frags |-> {"1", "/", " ", "-1", "2"}]
      [] p = "refshape" ->
           [pre |-> Box, lead |-> "f", post |-> "\n",
            frags |-> {" 1", " 1/", " 1//", " 1/1/", " 1/1//", " 1/1/1/", " 1///", " 1/1/1/1", " /1",
                       " 1//1/", " 2/1/1"}]
      [] p = "forward" ->
           [pre |-> "", lead |-> "", post |-> "",
            frags |-> {"v 1 2 3\n", "vt 1\n", "vn 1 2 3\n", "f 1/1 1/1 1/1\n", "l 1//1 1//1\n", "p 2\n",
                       "p -1 1\n", "l 1/2/1 1/1/1\n", "o b\n"}]
      [] p = "joined" ->
           [pre |-> "v 1 2 3\n", lead |-> "", post |-> "",
            frags |-> {"v 1 2 3 ", "vt 1 ", "vn 1 2 3 ", "p 1 ", "s 1 ", "usemtl x ", "g a ", "o b ", "\n",
                       "f 1 1 1 ", "4 "}]
      [] p = "vertices" ->
           [pre |-> "", lead |-> "", post |-> "\n",
            frags |-> {"v", "vt", "vn", " 1", " -2.5", "\n", " 3e1"}]
      [] p = "real" ->
           [pre |-> "", lead |-> "v 1 2 ", post |-> "\n", frags |-> {"1", "0", ".", "e", "-", "+", "5"}]
      [] p = "realword" ->
           [pre |-> "", lead |-> "vn 1 2 ", post |-> "\n",
            frags |-> {"inf", "INFINITY", "nAn", "inity", "-", "+", "_", "1", ",", "f", "0x", "d"}]
      [] p = "optional" ->
           [pre |-> "", lead |-> "vt 1", post |-> "\n",
            frags |-> {" 2", " 3", " x", " ", "1", "\n", "v 1 2 3"}]
      [] p = "refnum" ->
           [pre |-> "v 1 2 3\nv 4 5 6\n", lead |-> "p ", post |-> "\n",
            frags |-> {"1", "0", "-", "+", ".", "/", "2", "e", " "}]
      [] p = "smoothnum" ->
           [pre |-> "v 1 2 3\n", lead |-> "s ", post |-> "\np 1\n",
            frags |-> {"1", "0", "-", "+", "off", ".", " ", "9"}]
      [] p = "keywords" ->
           [pre |-> "", lead |-> "", post |-> "",
            frags |-> {"v", "t", "n", "p", "l", "f", "g", "s", "o", "mtllib", "usemtl", " 1 2 3\n"}]
      [] p = "lex" ->
           [pre |-> "", lead |-> "", post |-> "", frags |-> {"g", " ", "\n", "\r", "#", "\t", "\\", "o"}]
      [] p = "lexnum" ->
           [pre |-> "", lead |-> "v 1", post |-> "", frags |-> {" 2", "\t3", "\r", "\n", "#4", "\\5", "v", " "}]
      [] p = "lines" ->
           [pre |-> "", lead |-> "", post |-> "v 1 2",
            frags |-> {"\n", "\r", "\r\n", "# c", "v 1 2 3", " ", "g a", "vt 1"}]
      [] p = "names" ->
           [pre |-> "v 1 2 3\n", lead |-> "", post |-> "\np 1\n",
            frags |-> {"o", "g", "s", "usemtl", " a", " 1", "\n", "#"}]

F == Family(IOEnv.PROFILE)

Init == ObjInit(F.pre, FALSE) /\ fed = 0 /\ result = [libs |-> <<>>, objs |-> <<>>]

-----------------------------------------------------------------------------
(* The result *)

EmptyObject(name) ==
    [name |-> name, v |-> <<>>, vt |-> <<>>, vn |-> <<>>, g |-> <<>>, s |-> <<>>,
     e |-> <<>>, sh |-> <<>>, geo |-> <<>>]

From(lo, hi) == [i \in 1..(hi - lo) |-> lo + i - 1]

Geo(mat, lo, hi) == [m |-> mat, sh |-> From(lo, hi)]

ExtendObject(ob, o) ==
    CASE o.k = "v"  -> [ob EXCEPT !.v  = Append(@, o.c)]
      [] o.k = "vt" -> [ob EXCEPT !.vt = Append(@, o.c)]
      [] o.k = "vn" -> [ob EXCEPT !.vn = Append(@, o.c)]
      [] o.k = "group"  -> [ob EXCEPT !.g = @ \o o.names]
      [] o.k = "smooth" -> [ob EXCEPT !.s = Append(@, o.num)]
      [] o.k = "geo"    -> [ob EXCEPT !.geo = Append(@, Geo(o.mat, o.lo, o.hi))]
      [] o.k = "close"  ->
            IF o.obj.run < o.obj.nel
            THEN [ob EXCEPT !.geo = Append(@, Geo(o.obj.mat, o.obj.run, o.obj.nel))] ELSE ob
      [] o.k = "elem" ->
            [ob EXCEPT !.g = IF o.newgroup THEN Append(@, "default") ELSE @,
                       !.s = IF o.newsmooth THEN Append(@, "0") ELSE @,
                       !.e = @ \o o.es,
                       !.sh = @ \o [i \in 1..Len(o.es) |->
                                      [e |-> Len(ob.e) + i - 1, g |-> From(o.glo, o.ghi), s |-> o.sm]]]

Extend(res, o) ==
    CASE o.k \in {"none", "fail", "done"} -> res
      [] o.k = "lib"  -> [res EXCEPT !.libs = @ \o o.names]
      [] o.k = "open" -> [res EXCEPT !.objs = Append(@, EmptyObject(o.name))]
      [] OTHER -> [res EXCEPT !.objs[Len(res.objs)] = ExtendObject(@, o)]

-----------------------------------------------------------------------------

Over == phase' \in {"done", "failed"}

Read ==
    /\ ObjStep
    /\ result' = Extend(result, out')
    /\ UNCHANGED fed
    /\ IF Over THEN PrintT("T" \o ToJson(text)) ELSE TRUE

Lead == IF fed = 0 THEN F.lead ELSE ""

CanFeed == phase \in {"libs", "body"} /\ ~ended /\ ~Ready

Feed ==
    /\ CanFeed /\ fed < Max
    /\ \E f \in F.frags : text' = text \o Lead \o f
    /\ fed' = fed + 1
    /\ UNCHANGED <<ended, pos, line, phase, total, base, cur, nobj, nlib, fault, out, result>>

EndText ==
    /\ CanFeed
    /\ text' = text \o Lead \o F.post /\ ended' = TRUE
    /\ UNCHANGED <<pos, line, phase, total, base, cur, nobj, nlib, fault, out, result, fed>>

Next == Read \/ Feed \/ EndText

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Read) /\ WF_vars(EndText)

-----------------------------------------------------------------------------
(* Invariants *)

TypeOK ==
    /\ text \in STRING /\ ended \in BOOLEAN
    /\ pos \in 1..Len(text) + 1 /\ line \in Nat \ {0}
    /\ phase \in {"libs", "body", "done", "failed"}
    /\ total \in Counts /\ base \in Counts
    /\ nobj \in Nat /\ nlib \in Nat
    /\ cur.glo <= cur.ghi /\ cur.ghi <= cur.ngrp /\ cur.run <= cur.nel

Objs == result.objs

\* The abstract state counts what the result holds (C05, C10).
Agrees ==
    /\ nlib = Len(result.libs)
    /\ nobj + (IF cur.open THEN 1 ELSE 0) = Len(Objs)
    /\ cur.open =>
         LET ob == Objs[Len(Objs)]
         IN  /\ ob.name = cur.name
             /\ Len(ob.v) = total.v - base.v
             /\ Len(ob.vt) = total.vt - base.vt
             /\ Len(ob.vn) = total.vn - base.vn
             /\ Len(ob.e) = cur.nel /\ Len(ob.g) = cur.ngrp /\ Len(ob.s) = cur.nsm

\* Every reference leads to a vertex of its own object (C02).
NoDangling ==
    \A o \in 1..Len(Objs) : \A i \in 1..Len(Objs[o].e) :
        \A c \in 1..Len(Objs[o].e[i].x) :
            LET x == Objs[o].e[i].x[c]
            IN  /\ x[1] \in 0..Len(Objs[o].v) - 1
                /\ x[2] \in 0..Len(Objs[o].vt) - 1 \cup {None}
                /\ x[3] \in 0..Len(Objs[o].vn) - 1 \cup {None}

\* Elements have as many corners as their kind, all of one form (C04).
WellFormed ==
    \A o \in 1..Len(Objs) : \A i \in 1..Len(Objs[o].e) :
        LET e == Objs[o].e[i]
        IN  /\ Len(e.x) = CASE e.k = "p" -> 1 [] e.k = "l" -> 2 [] e.k = "f" -> 3
            /\ OneForm(e.x)
            /\ e.k = "p" => Form(e.x[1]) = <<FALSE, FALSE>>

\* Shapes are aligned with elements, and name groups and a smoothing group (C07, C08).
Aligned ==
    \A o \in 1..Len(Objs) :
        LET ob == Objs[o]
        IN  /\ Len(ob.sh) = Len(ob.e)
            /\ \A i \in 1..Len(ob.sh) :
                  /\ ob.sh[i].e = i - 1
                  /\ Len(ob.sh[i].g) > 0
                  /\ \A j \in 1..Len(ob.sh[i].g) : ob.sh[i].g[j] \in 0..Len(ob.g) - 1
                  /\ ob.sh[i].s \in 0..Len(ob.s) - 1

\* Later elements never go back to earlier groups or smoothing groups.
Monotone ==
    \A o \in 1..Len(Objs) : \A i \in 2..Len(Objs[o].sh) :
        /\ Objs[o].sh[i].g[1] >= Objs[o].sh[i - 1].g[1]
        /\ Objs[o].sh[i].s >= Objs[o].sh[i - 1].s

RECURSIVE Flat(_, _)
Flat(geo, i) == IF i > Len(geo) THEN <<>> ELSE geo[i].sh \o Flat(geo, i + 1)

\* The geometries of a finished object are its elements, cut into runs (C09).
Partition ==
    \A o \in 1..Len(Objs) :
        LET ob == Objs[o]
            n == IF o = Len(Objs) /\ cur.open THEN cur.run ELSE Len(ob.e)
        IN  /\ Flat(ob.geo, 1) = From(0, n)
            /\ \A i \in 1..Len(ob.geo) :
                  /\ Len(ob.geo[i].sh) > 0
                  /\ ob.geo[i].m = <<>> => i = 1     \* only what precedes the first usemtl

\* The state of an object starts afresh (C10).
Fresh == ~cur.open => cur = NoObject

\* Lines are counted right: the reader stands on the line its position is in (C13).
Breaks[s \in STRING, i \in Nat, upto \in Nat, n \in Nat] ==
    IF i >= upto THEN n
    ELSE IF Ch(s, i) = "\n" \/ (Ch(s, i) = "\r" /\ ~(i < Len(s) /\ Ch(s, i + 1) = "\n"))
    THEN Breaks[s, i + 1, upto, n + 1] ELSE Breaks[s, i + 1, upto, n]

OnLine == line = 1 + Breaks[text, 1, pos, 0]

FaultLine == phase = "failed" => fault.line = line /\ fault.kind # ""

\* The reader is never stuck (C01).
NeverStuck == Ready => ENABLED ObjStep

\* Reading does not depend on how the text is cut into fragments: what remains
\* of the whole text read so far is exactly what the tokens say.
AllTokensRead == phase = "done" => TokensFrom[text, pos, <<>>] = <<>>

-----------------------------------------------------------------------------
(* Action properties *)

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* What has been read is never rewritten (C18).
ObjectGrows(a, b) ==
    /\ a.name = b.name
    /\ Prefix(a.v, b.v) /\ Prefix(a.vt, b.vt) /\ Prefix(a.vn, b.vn)
    /\ Prefix(a.g, b.g) /\ Prefix(a.s, b.s)
    /\ Prefix(a.e, b.e) /\ Prefix(a.sh, b.sh) /\ Prefix(a.geo, b.geo)

AppendOnly ==
    [][ /\ Prefix(result.libs, result'.libs)
        /\ Len(Objs) <= Len(result'.objs)
        /\ \A o \in 1..Len(Objs) :
              IF o < Len(Objs) \/ ~cur.open THEN result'.objs[o] = Objs[o]
              ELSE ObjectGrows(Objs[o], result'.objs[o]) ]_vars

\* An error is final (C18).
Final == [][phase # "failed"]_vars

\* Every step makes progress: the position, or where it cannot move, the phase
\* or the current object (C01).
Progress ==
    [][ \/ pos' > pos
        \/ pos' = pos /\ (fed' > fed \/ ended' # ended \/ phase' # phase \/ cur'.open # cur.open) ]_vars

Termination == <>(phase \in {"done", "failed"})

-----------------------------------------------------------------------------
(* Counting from the front and from the back name the same vertices (C03). *)

ASSUME \A lo \in 0..4 : \A hi \in lo..6 : \A n \in (0 - 8)..8 :
         /\ InRange(lo, hi, n) => Target(lo, hi, n) \in lo..hi - 1
         /\ (n > 0 /\ InRange(lo, hi, n)) =>
               InRange(lo, hi, n - 1 - hi) /\ Target(lo, hi, n - 1 - hi) = Target(lo, hi, n)
         /\ (n < 0 /\ InRange(lo, hi, n)) =>
               InRange(lo, hi, hi + 1 + n) /\ Target(lo, hi, hi + 1 + n) = Target(lo, hi, n)
ASSUME \A lo \in 0..4 : \A hi \in lo..6 :          \* and every vertex can be named
         \A t \in lo..hi - 1 : \E n \in 1..8 : InRange(lo, hi, n) /\ Target(lo, hi, n) = t
=============================================================================
