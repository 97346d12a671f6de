----------------------------- MODULE ParseTree -----------------------------
(* Parsing, as a transition system: `node` is one way the rest of the text  *)
(* may continue, and each step records the path of nested rules in which    *)
(* the symbol was read.  The path sequence of an accepting run is the parse *)
(* tree of the text; it defines what every component accessor returns.      *)
(*                                                                          *)
(* Two runs over the same text are explored side by side (`a`, `b`); `diff` *)
(* records whether they have ever disagreed on a path.  Invariant Unambig:  *)
(* if both accept, they never disagreed - so the decomposition of a text is *)
(* unique, for texts of any length.                                         *)
EXTENDS Derivatives, TLC, TLCExt, IOUtils, Json

VARIABLES ty, a, b, diff

DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"
Id(x) == TLCFP(x)
Out(x) == IF DUMP THEN PrintT(ToJson(x)) ELSE TRUE

\* Language-Tag itself is ambiguous by design (a regular grandfathered tag
\* also matches langtag); its three alternatives are not.
Roots == Types \ {"LangTag"}

Init == /\ ty \in Roots
        /\ a = NT(TypeRule[ty]) /\ b = a
        /\ diff = FALSE
        /\ Out(<<"NFA-I", ty, Id(a), Nullable(a)>>)

\* one run
Step(s) == \E p \in PD(a, s) :
             /\ Out(<<"NFA-E", ty, Id(a), s, Id(p.rest), Nullable(p.rest), p.path>>)
             /\ a' = p.rest /\ b' = p.rest /\ diff' = FALSE
\* two runs that have parted, or part now
Fork(s) == \E p1 \in PD(a, s), p2 \in PD(b, s) :
             /\ p1 # p2
             /\ a' = p1.rest /\ b' = p2.rest /\ diff' = (diff \/ p1.path # p2.path)
Side(s) == \E p1 \in PD(a, s), p2 \in PD(b, s) :
             /\ a' = p1.rest /\ b' = p2.rest /\ diff' = (diff \/ p1.path # p2.path)

Next == /\ ty' = ty
        /\ \E s \in Symbols : IF a = b /\ ~diff THEN Step(s) \/ Fork(s) ELSE Side(s)
Spec == Init /\ [][Next]_<<ty, a, b, diff>>

Unambig == diff => ~(Nullable(a) /\ Nullable(b))
=============================================================================
