----------------------------- MODULE Recognizer -----------------------------
(* The recogniser of every public type, as a transition system: `q` is the  *)
(* set of ways the rest of the text may continue.  The reachable graph is   *)
(* finite; TLC explores all of it, and (with DUMP) prints it so that the    *)
(* conformance harness can replay it against the real parsers.              *)
EXTENDS Derivatives, TLC, TLCExt, IOUtils, Json

VARIABLES ty, q

DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"

Id(x) == TLCFP(x)
Out(x) == IF DUMP THEN PrintT(ToJson(x)) ELSE TRUE

\* The byte classes and the case folding, for the harness.
ASSUME \A b \in Byte : Out(<<"SYM", b, Sym(b), Fold(b)>>)

Init == /\ ty \in Types
        /\ q = {NT(TypeRule[ty])}
        /\ Out(<<"DFA-I", ty, Id(q), Accepts(q)>>)

Push(s) == /\ q' = Delta(q, s)
           /\ ty' = ty
           /\ Out(<<"DFA-E", ty, Id(q), s, Id(q'), Accepts(q')>>)

Next == \E s \in Symbols : Push(s)
Spec == Init /\ [][Next]_<<ty, q>>

(* Facts about the grammar that hold in every reachable state, hence for    *)
(* every text of every length.                                              *)
\* No production mentions anything but letters, digits and '-'.
NoOther == Delta(q, JUNK) = {}
\* A text never ends with, starts with, or doubles a '-'.
NoEmptySubtag == q # {} => \A s \in Symbols :
                    Delta(Delta(q, HYPHEN), HYPHEN) = {} /\ ~Accepts(Delta(q, HYPHEN))
\* Only the two list types accept the empty text.
EmptyOnlyLists == (q = {NT(TypeRule[ty])} /\ Accepts(q)) => ty \in {"Variants", "Extensions"}
=============================================================================
