------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Characters, layout and tokens of Wavefront OBJ and MTL text.            *)
(*                                                                         *)
(* A text is a TLA+ string; positions count from 1.  Blanks (space, tab    *)
(* and backslash) separate tokens, `#' starts a comment that lasts to the  *)
(* end of its line, and a line ends with LF, CR or CRLF.  The three line   *)
(* endings are one and the same token, written "\n" here; the end of the   *)
(* text is the token "".  No other token can be spelled either way.        *)
(*                                                                         *)
(* Deliberate deviation from the 1995 file format: a backslash is an       *)
(* ordinary blank and does not join its line with the next one.  The       *)
(* library's own tests fix this behaviour.                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)

Blank(c)   == c \in {" ", "\t", "\\"}
EndLine(c) == c \in {"\n", "\r"}

NL  == "\n"       \* the token for the end of a line
EOT == ""         \* the token for the end of the text

\* (Recursion is by functions rather than by RECURSIVE operators throughout:
\* TLC's cost of looking up a name grows with the depth of operator calls, but
\* starts afresh in a function's body.)

SkipBlanks[s \in STRING, i \in Nat] ==
    IF i <= Len(s) /\ Blank(Ch(s, i)) THEN SkipBlanks[s, i + 1] ELSE i

LineEnd[s \in STRING, i \in Nat] ==
    IF i <= Len(s) /\ ~EndLine(Ch(s, i)) THEN LineEnd[s, i + 1] ELSE i

WordEnd[s \in STRING, i \in Nat] ==
    IF i > Len(s) THEN i
    ELSE LET c == Ch(s, i)
         IN  IF Blank(c) \/ EndLine(c) \/ c = "#" THEN i ELSE WordEnd[s, i + 1]

\* The token at or after position p: its spelling t and where it ends.
Tok(s, p) ==
    LET b == SkipBlanks[s, p]
        i == IF b <= Len(s) /\ Ch(s, b) = "#" THEN LineEnd[s, b] ELSE b
    IN  IF i > Len(s) THEN [t |-> EOT, nxt |-> i]
        ELSE LET c == Ch(s, i)
             IN  IF c = "\n" THEN [t |-> NL, nxt |-> i + 1]
                 ELSE IF c = "\r"
                 THEN [t |-> NL,
                       nxt |-> IF i < Len(s) /\ Ch(s, i + 1) = "\n" THEN i + 2 ELSE i + 1]
                 ELSE LET e == WordEnd[s, i]
                      IN  [t |-> SubSeq(s, i, e - 1), nxt |-> e]

TokAt == [s \in STRING, p \in Nat |-> Tok(s, p)]

\* The words from position p to the end of the line, and where the line ends
\* (the line ending itself is not consumed).  They are gathered 64 at a time,
\* since TLC's cost of appending grows with the length.
SomeWords[s \in STRING, p \in Nat, acc \in Seq(STRING)] ==
    LET k == TokAt[s, p]
    IN  IF k.t \in {NL, EOT} \/ Len(acc) = 64 THEN [ws |-> acc, nxt |-> p]
        ELSE SomeWords[s, k.nxt, Append(acc, k.t)]

WordsFrom[s \in STRING, p \in Nat, acc \in Seq(STRING)] ==
    LET w == SomeWords[s, p, <<>>]
    IN  IF w.ws = <<>> THEN [ws |-> acc, nxt |-> p] ELSE WordsFrom[s, w.nxt, acc \o w.ws]

Words(s, p) == WordsFrom[s, p, <<>>]

\* All tokens of a text, in order, without the final EOT.
SomeTokens[s \in STRING, p \in Nat, acc \in Seq(STRING)] ==
    LET k == TokAt[s, p]
    IN  IF k.t = EOT \/ Len(acc) = 64 THEN [ts |-> acc, nxt |-> p]
        ELSE SomeTokens[s, k.nxt, Append(acc, k.t)]

TokensFrom[s \in STRING, p \in Nat, acc \in Seq(STRING)] ==
    LET w == SomeTokens[s, p, <<>>]
    IN  IF w.ts = <<>> THEN acc ELSE TokensFrom[s, w.nxt, acc \o w.ts]

Tokens(s) == TokensFrom[s, 1, <<>>]

\* The tokens with empty lines removed: what is left of a text once its layout
\* has been taken away.
Squeeze[ts \in Seq(STRING), i \in Nat, acc \in Seq(STRING)] ==
    IF i > Len(ts) THEN acc
    ELSE IF ts[i] = NL /\ (acc = <<>> \/ acc[Len(acc)] = NL)
         THEN Squeeze[ts, i + 1, acc]
         ELSE Squeeze[ts, i + 1, Append(acc, ts[i])]

Essence(s) == Squeeze[Tokens(s), 1, <<>>]
=============================================================================
