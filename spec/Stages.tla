------------------------------- MODULE Stages -------------------------------
(* Reading a normal tag in one pass (module StageMachine): a machine that keeps *)
(* only the section it is in and a summary of the current subtag.  It runs  *)
(* beside the derivative automaton of the ABNF (module Derivatives); the    *)
(* product is finite and TLC explores all of it, so that what the           *)
(* invariants say holds for tags of *every* length:                         *)
(*   SameLanguage  the machine accepts exactly the texts of `langtag`;      *)
(*   SameSection   every subtag of every parse is read in the section the   *)
(*                 machine puts it into (so sections are unique, and what   *)
(*                 the accessors return is fixed);                          *)
(*   Greedy        the crate's way of finding the sections - from the left, *)
(*                 each section takes subtags as long as they look like     *)
(*                 its own, without counting them - is right on every       *)
(*                 well-formed tag.                                         *)
(* `parses` holds all the ways the text read so far may be continued, each  *)
(* with the section of the ABNF the current subtag is read in.              *)
EXTENDS Derivatives, StageMachine, TLC

VARIABLES parses, st, gr, sub
vars == <<parses, st, gr, sub>>

(*--------------------------- the section in a parse -----------------------*)
Has(path, r) == \E i \in 1..Len(path) : path[i] = r
SectionOf(path) ==
  CASE Has(path, "language") -> "language" [] Has(path, "script") -> "script"
    [] Has(path, "region") -> "region" [] Has(path, "variant") -> "variant"
    [] Has(path, "extension") -> "extension" [] Has(path, "privateuse") -> "privateuse"
    [] OTHER -> "between"
Label(old, path) == IF sub.n = 0 \/ old = SectionOf(path) THEN SectionOf(path) ELSE "mixed"

Init == /\ parses = { [rest |-> NT("langtag"), sec |-> ""] }
        /\ st = <<"start", 0>> /\ gr = "start" /\ sub = Nothing
Char(s) == /\ parses' = UNION { { [rest |-> p.rest, sec |-> Label(b.sec, p.path)] : p \in PD(b.rest, s) } : b \in parses }
           /\ sub' = Add(sub, s)
           /\ UNCHANGED <<st, gr>>
Hyphen == /\ parses' = UNION { { [rest |-> p.rest, sec |-> ""] : p \in PD(b.rest, HYPHEN) } : b \in parses }
          /\ st' = After(st, sub)
          /\ gr' = IF After(st, sub) = Dead THEN gr ELSE Take(gr, sub)
          /\ sub' = Nothing
Next == /\ st # Dead \/ parses # {}
        /\ Hyphen \/ \E s \in ALPHA \cup DIGIT : Char(s)
Spec == Init /\ [][Next]_vars

(*------------------------------- invariants -------------------------------*)
\* a way of reading in which the current subtag may end here
Ends(b) == Nullable(b.rest) \/ PD(b.rest, HYPHEN) # {}
SameLanguage == (\E b \in parses : Nullable(b.rest)) <=> May(After(st, sub))
SamePrefix   == (\E b \in parses : Ends(b)) <=> After(st, sub) # Dead
SameSection  == \A b \in parses : Ends(b) => b.sec = After(st, sub)[1]
Greedy       == \A b \in parses : Ends(b) => b.sec = Take(gr, sub)
=============================================================================
