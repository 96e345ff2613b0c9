------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* Reading parts of statements: what the OBJ and the MTL reader share.     *)
(***************************************************************************)
EXTENDS Lexer, Numerals

(* Results of reading part of a statement: either an error kind, or what was *)
(* read and where reading goes on.                                           *)

Bad(kind) == [err |-> kind, val |-> <<>>, nxt |-> 0]
Good(val, nxt) == [err |-> "", val |-> val, nxt |-> nxt]

\* n reals from position p
ReadReals[s \in STRING, p \in Nat, n \in Nat, acc \in Seq(STRING)] ==
    IF n = 0 THEN Good(acc, p)
    ELSE LET k == TokAt[s, p]
         IN  IF k.t = EOT THEN Bad("EndOfFile")
             ELSE IF IsReal(k.t) THEN ReadReals[s, k.nxt, n - 1, Append(acc, k.t)]
             ELSE Bad("ExpectedFloat")

\* up to n further reals, if they are there; d stands in for those that are not
ReadOptional[s \in STRING, p \in Nat, n \in Nat, d \in STRING, acc \in Seq(STRING)] ==
    IF n = 0 THEN Good(acc, p)
    ELSE LET k == TokAt[s, p]
         IN  IF IsReal(k.t) THEN ReadOptional[s, k.nxt, n - 1, d, Append(acc, k.t)]
             ELSE ReadOptional[s, p, n - 1, d, Append(acc, d)]

-----------------------------------------------------------------------------
(* The readers as constant functions.  (TLC evaluates the body of a constant *)
(* function once per argument, whereas it would evaluate the LETs of an      *)
(* operator that is used in an action again at every occurrence.  For the    *)
(* same reason actions say \E x \in {e} : A where a LET would do.)           *)

Places == STRING \X Nat

WordsAt  == [a \in Places |-> Words(a[1], a[2])]
RealsAt  == [a \in STRING \X Nat \X Nat |-> ReadReals[a[1], a[2], a[3], <<>>]]
=============================================================================
