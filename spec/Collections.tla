---------------------------- MODULE Collections ----------------------------
(* A set or map whose keys are tags.  A key is known by its class (the      *)
(* folded text); the spelling first inserted is the one kept.  Spellings    *)
(* 10*c + k are the spellings k = 1..Spellings of class c.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANTS Classes, Spellings, Values

VARIABLES kind,       \* "set" or "map"
          ent         \* class -> <<spelling, value>> or <<>>

DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"
Out(x) == IF DUMP THEN PrintT(ToJson(x)) ELSE TRUE

Class == 1..Classes
Spelling == { 10 * c + k : c \in Class, k \in 1..Spellings }
ClassOf(s) == s \div 10
Vals(k) == IF k = "set" THEN {0} ELSE Values

\* results: 0/1 flags, or <<spelling, value>> options
Results(op, s, x) ==
  LET e == ent[ClassOf(s)] IN
  CASE op = "insert" -> IF kind = "set" THEN <<IF e = <<>> THEN 1 ELSE 0>>
                        ELSE IF e = <<>> THEN <<>> ELSE <<e[2]>>     \* previous value
    [] op = "contains" -> <<IF e = <<>> THEN 0 ELSE 1>>
    [] op = "get"  -> e
    [] op = "remove" -> e
    [] op = "replace" -> IF e = <<>> THEN <<>> ELSE <<e[1]>>
    [] op = "entry" -> IF e = <<>> THEN <<x>> ELSE <<e[2]>>    \* map: entry().or_insert(x)
    [] op = "len" -> <<Cardinality({ c \in Class : ent[c] # <<>> })>>

After(op, s, x) ==
  LET c == ClassOf(s)  e == ent[c] IN
  CASE op = "insert" -> IF kind = "set" THEN (IF e = <<>> THEN <<s, 0>> ELSE e)
                        ELSE (IF e = <<>> THEN <<s, x>> ELSE <<e[1], x>>)
    [] op = "remove" -> <<>>
    [] op = "replace" -> <<s, 0>>
    [] op = "entry" -> IF e = <<>> THEN <<s, x>> ELSE e
    [] OTHER -> e

OpsOf(k) == {"insert", "contains", "get", "remove", "len"} \cup
            (IF k = "set" THEN {"replace"} ELSE {"entry"})

Init == /\ kind \in {"set", "map"} /\ ent = [c \in Class |-> <<>>]
Do(op, s, x) ==
  /\ ent' = [ent EXCEPT ![ClassOf(s)] = After(op, s, x)]
  /\ kind' = kind
  /\ Out(<<"CO-E", kind, ent, op, s, x, Results(op, s, x), ent'>>)
Next == \E op \in OpsOf(kind) : \E s \in Spelling : \E x \in Vals(kind) : Do(op, s, x)
Spec == Init /\ [][Next]_<<kind, ent>>

OneEntryPerClass == \A c \in Class : ent[c] # <<>> => ClassOf(ent[c][1]) = c
\* the key kept is the one first inserted, until it is removed or replaced
KeepsFirst == [][\A c \in Class : (ent[c] # <<>> /\ ent'[c] # <<>> /\ ent'[c][1] # ent[c][1]) => kind = "set"]_<<kind, ent>>
=============================================================================
