------------------------------- MODULE Leaves -------------------------------
(* What is handed out is well-formed, for every type and texts of every     *)
(* length: in every parse, each subtag is read inside exactly one of the    *)
(* innermost rules, and has the shape module Structure asks of that rule;   *)
(* conversely the shapes of two rules that may both come at some place are  *)
(* never the same (so no subtag could have been read differently).  An      *)
(* extension starts exactly at the subtags of one character.                *)
(* The product of the parse automaton with the summary of a subtag (module  *)
(* StageMachine) is finite; TLC explores all of it.                         *)
EXTENDS Derivatives, StageMachine, TLC

VARIABLES ty, parses, sub
vars == <<ty, parses, sub>>

Leaf == {"primary23", "primary4", "primary58", "extlang-tag", "script", "region", "variant",
         "singleton", "extension-subtag", "privateuse-subtag", "irregular", "regular"}
LeafOf(path) ==
  LET at == { i \in 1..Len(path) : path[i] \in Leaf }
  IN IF at # {} THEN path[CHOOSE i \in at : \A j \in at : i >= j]
     ELSE IF path # <<>> /\ path[Len(path)] = "privateuse" THEN "x"
     ELSE "none"
Fits(leaf, u) ==
  CASE leaf = "primary23" -> u.n \in 2..3 /\ u.al
    [] leaf = "primary4"  -> u.n = 4 /\ u.al
    [] leaf = "primary58" -> u.n \in 5..8 /\ u.al
    [] leaf = "extlang-tag" -> ExtLang(u)
    [] leaf = "script" -> Script(u)
    [] leaf = "region" -> Region(u)
    [] leaf = "variant" -> Vari(u)
    [] leaf = "singleton" -> Single(u)
    [] leaf = "x" -> u.n = 1 /\ u.x
    [] leaf = "extension-subtag" -> ExtSub(u)
    [] leaf = "privateuse-subtag" -> PuSub(u)
    [] leaf \in {"irregular", "regular"} -> u.n \in 1..8
    [] OTHER -> FALSE
Registered == {"irregular", "regular"}

Init == /\ ty \in Types
        /\ parses = { [rest |-> NT(TypeRule[ty]), leaf |-> "start"] } /\ sub = Nothing
Char(s) == /\ parses' = UNION { { [rest |-> p.rest,
                                   leaf |-> IF sub.n = 0 \/ b.leaf = LeafOf(p.path) THEN LeafOf(p.path) ELSE "mixed"]
                                  : p \in PD(b.rest, s) } : b \in parses }
           /\ sub' = Add(sub, s)
Hyphen == /\ parses' = UNION { { [rest |-> p.rest, leaf |-> "start"] : p \in PD(b.rest, HYPHEN) } : b \in parses }
          /\ sub' = Nothing
Next == /\ parses # {} /\ ty' = ty
        /\ Hyphen \/ \E s \in ALPHA \cup DIGIT : Char(s)
Spec == Init /\ [][Next]_vars

Ends(b) == Nullable(b.rest) \/ PD(b.rest, HYPHEN) # {}
\* (an empty list has no subtag)
Shape    == \A b \in parses : Ends(b) => (sub.n = 0 /\ ty \in {"Variants", "Extensions"}) \/ Fits(b.leaf, sub)
OneLeaf  == \A b, c \in parses : Ends(b) /\ Ends(c) /\ b.leaf \notin Registered /\ c.leaf \notin Registered => b.leaf = c.leaf
\* an extension starts exactly where a subtag has one character
Starts   == \A b \in parses : Ends(b) /\ b.leaf \in {"singleton", "extension-subtag"} => (b.leaf = "singleton" <=> sub.n = 1)
\* no subtag is longer than eight characters, and none is empty
Bounded  == \A b \in parses : Ends(b) => sub.n <= 8
NoEmpty  == sub.n = 0 => ~ \E b \in parses : PD(b.rest, HYPHEN) # {}
=============================================================================
