----------------------------- MODULE ViewTrace -----------------------------
(***************************************************************************)
(* Trace validation of the library's accessors and of its Display text.    *)
(* A case is one object set with everything that was asked about it:       *)
(*    r    the recorded answer: objs, acc (lookups), dis (texts), setdis   *)
(*    rt   for each object, what the library made of the object's own text *)
(*    fl   the doubles denoted by the reals in that text                   *)
(* or, with st = "types", the table of has_same_type_as, or, with           *)
(* st = "shows", parts made of given numbers and the texts they have.       *)
(* One step per object.                                                    *)
(***************************************************************************)
EXTENDS ViewSpec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, i, tally
vars == <<case, i, tally>>

R == Cases[case].r
Flag(cond, aspect) == IF cond THEN {} ELSE {aspect}

Val(fl, w) ==
    LET n == Len(w)
        b == IF n < 2 THEN w ELSE SubSeq(w, n - 1, n)
    IN  IF b \notin DOMAIN fl THEN "no real"
        ELSE IF w \notin DOMAIN fl[b] THEN "no real" ELSE fl[b][w]

\* A displayed vertex: its keyword and reals that denote exactly its coordinates.
\* A coordinate that has a default may be left out at the end if it has it.
Default(fl, keyword, c) ==
    IF keyword = "v" /\ c = 4 THEN Val(fl, "1")
    ELSE IF keyword = "vt" /\ c > 1 THEN Val(fl, "0") ELSE "none"

Shows(fl, txt, keyword, coords) ==
    LET w == Words(txt, 1).ws
    IN  /\ Len(w) >= 1 /\ Len(w) <= Len(coords) + 1
        /\ w[1] = keyword
        /\ \A c \in 1..Len(coords) :
              (IF c < Len(w) THEN Val(fl, w[c + 1]) ELSE Default(fl, keyword, c)) = coords[c]

\* Texts that differ at most in blanks and line ends.
WordsOf(txt) == SelectSeq(Tokens(txt), LAMBDA w : w # NL)
SameText(a, b) == a = b \/ WordsOf(a) = WordsOf(b)

EndsShow(fl, ends, keyword, set) ==
    IF set = <<>> THEN ends = <<>>
    ELSE /\ Len(ends) = 2
         /\ Shows(fl, ends[1], keyword, set[1])
         /\ Shows(fl, ends[2], keyword, set[Len(set)])

\* What an element belongs to, by name.
GroupsOf(ob, n) ==
    [j \in 1..Len(ob.sh[n].g) |->
        IF Inside(ob.sh[n].g[j], ob.g) THEN ob.g[ob.sh[n].g[j] + 1] ELSE "(no such group)"]
SmoothOf(ob, n) == IF Inside(ob.sh[n].s, ob.s) THEN ob.s[ob.sh[n].s + 1] ELSE "(none)"
MaterialOf(ob) ==     \* for each element, the names of the materials it has
    [n \in 1..Len(ob.e) |->
        {ob.geo[j].m : j \in {h \in 1..Len(ob.geo) :
                                  \E k \in 1..Len(ob.geo[h].sh) : ob.geo[h].sh[k] = n - 1}}]

\* Writing an object and reading it back loses nothing.
RoundTrip(ob, back) ==
    IF back.st # "ok" THEN {"display-reread"}
    ELSE IF Len(back.objs) # 1 THEN {"display-reread"}
    ELSE LET b == back.objs[1]
         IN       Flag(b.name = ob.name, "display-name")
             \cup Flag(b.v = ob.v, "display-v")
             \cup Flag(b.vt = ob.vt, "display-vt")
             \cup Flag(b.vn = ob.vn, "display-vn")
             \cup Flag(b.e = ob.e, "display-element")
             \cup Flag(Len(b.sh) = Len(ob.sh) /\ Len(b.sh) = Len(b.e) /\
                       \A n \in 1..Len(ob.sh) : GroupsOf(b, n) = GroupsOf(ob, n), "display-group")
             \cup Flag(Len(b.sh) = Len(ob.sh) /\
                       \A n \in 1..Len(ob.sh) : SmoothOf(b, n) = SmoothOf(ob, n), "display-smooth")
             \cup Flag(Len(ob.e) > 60 \/ MaterialOf(b) = MaterialOf(ob), "display-material")

ObjectAspects(ob, acc, dis, back, fl) ==
         Flag(\A n \in 1..Len(acc) : acc[n].r = Lookup(ob, acc[n].q), "lookup")
    \cup Flag(SameText(dis.sum, Summary(ob, dis)), "display-summary")
    \cup Flag(EndsShow(fl, dis.v, "v", ob.v), "display-v")
    \cup Flag(EndsShow(fl, dis.vt, "vt", ob.vt), "display-vt")
    \cup Flag(EndsShow(fl, dis.vn, "vn", ob.vn), "display-vn")
    \cup Flag(Len(dis.es) = Len(ob.e) /\
              \A n \in 1..Len(ob.e) : Words(dis.es[n], 1).ws = ElementWords(ob.e[n]),
              "display-element")
    \cup Flag(dis.ss = [n \in 1..Len(ob.s) |-> SmoothText(ob.s[n])], "display-smooth")
    \cup Flag(ob.g = <<>> \/ dis.g = <<ob.g[1], ob.g[Len(ob.g)]>>, "display-group")
    \cup (IF dis.rt = "" THEN {} ELSE RoundTrip(ob, back))

ObjectAspectsOf ==        \* see Readers.tla
    [a \in Nat \X Nat |->
        LET c == Cases[a[1]]
        IN  ObjectAspects(c.r.objs[a[2]], c.r.acc[a[2]], c.r.dis[a[2]], c.rt[a[2]], c.fl)]

TypeAspects == Flag(\A n \in 1..Len(R.rows) : R.rows[n].same = SameForm(R.rows[n].a, R.rows[n].b),
                    "same-form")

\* References, elements and smoothing groups of numbers of every size.
ShownWords(row) ==
    CASE row.k = "q" -> <<WordRefText(row.x[1])>>
      [] row.k = "s" -> <<SmoothText(row.x[1][1])>>
      [] OTHER       -> <<row.k>> \o [j \in 1..Len(row.x) |-> WordRefText(row.x[j])]

ShowsAspects ==
         Flag(\A n \in 1..Len(R.rows) : R.rows[n].k = "q" => Words(R.rows[n].t, 1).ws = ShownWords(R.rows[n]), "display-ref")
    \cup Flag(\A n \in 1..Len(R.rows) : R.rows[n].k = "s" => R.rows[n].t = SmoothText(R.rows[n].x[1][1]), "display-smooth")
    \cup Flag(\A n \in 1..Len(R.rows) : R.rows[n].k \in {"p", "l", "f"} => Words(R.rows[n].t, 1).ws = ShownWords(R.rows[n]),
              "display-element")
    \cup Flag(\A n \in 1..Len(R.pairs) : R.pairs[n].same = SameWordForm(R.pairs[n].x[1], R.pairs[n].x[2]), "same-form")

SetAspects ==
    IF R.st = "types" THEN TypeAspects
    ELSE IF R.st = "shows" THEN ShowsAspects
    ELSE IF R.st # "ok" \/ "xpanic" \in DOMAIN R THEN {"crash"}
    ELSE      Flag(SameText(R.setdis, SetSummary(R.dis)), "display-summary")
         \cup Flag(R.again.st = "ok" /\ R.again.libs = <<>> /\ R.again.objs = <<>>, "again")

Report(new) ==
    IF new = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Cases[case].id, new, i, "", "">>)

Init == case = 1 /\ i = 0 /\ tally = [objects |-> 0, lookups |-> 0, texts |-> 0]

NObj == IF R.st # "ok" \/ "xpanic" \in DOMAIN R THEN 0 ELSE Len(R.objs)

View ==
    /\ case <= Len(Cases) /\ i < NObj
    /\ i' = i + 1
    /\ \E new \in {ObjectAspectsOf[case, i + 1]} : Report(new)
    /\ tally' = [tally EXCEPT !.objects = @ + 1,
                              !.lookups = @ + Len(R.acc[i + 1]),
                              !.texts = @ + Len(R.dis[i + 1].es)]
    /\ UNCHANGED case

NextCase ==
    /\ case <= Len(Cases) /\ i = NObj
    /\ Report(SetAspects)
    /\ case' = case + 1 /\ i' = 0 /\ UNCHANGED tally
    /\ IF case < Len(Cases) THEN TRUE
       ELSE PrintT(<<"TALLY", tally>>) /\ PrintT(<<"READ", case>>)

Next == View \/ NextCase
AllRead == TLCGet("stats").diameter = TLCGet("stats").distinct
=============================================================================
