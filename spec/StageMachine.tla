---------------------------- MODULE StageMachine ----------------------------
(* Finding the sections of a normal tag in one pass: the summary of a       *)
(* subtag, the machine the RFC asks for, and the crate's greedy way.  Run   *)
(* beside the ABNF in module Stages (texts of every length) and beside the  *)
(* declarative formulation in module StagesCut.                             *)
EXTENDS Chars, Integers

CONSTANT Variant      \* "crate", or a defective way of finding the sections (refuted)

(*--------------------------- the current subtag ---------------------------*)
Nothing == [n |-> 0, d1 |-> FALSE, al |-> TRUE, dg |-> TRUE, x |-> FALSE]
Add(u, s) == [n  |-> IF u.n = 9 THEN 9 ELSE u.n + 1,
              d1 |-> IF u.n = 0 THEN s \in DIGIT ELSE u.d1,
              al |-> u.al /\ s \in ALPHA,
              dg |-> u.dg /\ s \in DIGIT,
              x  |-> u.n = 0 /\ s = "x"]
Prim(u)   == u.n \in 2..8 /\ u.al
ExtLang(u) == u.n = 3 /\ u.al
Script(u) == u.n = 4 /\ u.al
Region(u) == (u.n = 2 /\ u.al) \/ (u.n = 3 /\ u.dg)
Vari(u)   == u.n \in 5..8 \/ (u.n = 4 /\ u.d1)
Single(u) == u.n = 1 /\ ~u.x
ExtSub(u) == u.n \in 2..8
PuSub(u)  == u.n \in 1..8

(*------------------- the machine: what the RFC asks for -------------------*)
\* states: <<section, detail>>; a detail of 1 after a singleton or 'x' says that
\* something has to follow; for the language it counts the subtags that may follow
Dead == <<"dead", 0>>
After(s, u) ==
  IF u.n \in {0, 9} THEN Dead
  ELSE IF s[1] = "dead" THEN Dead
  ELSE IF s[1] = "start" THEN (IF ~Prim(u) THEN Dead ELSE IF u.n <= 3 THEN <<"language", 3>> ELSE <<"language", 0>>)
  ELSE IF s[1] = "privateuse" THEN (IF PuSub(u) THEN <<"privateuse", 0>> ELSE Dead)
  ELSE IF s[1] = "extension" /\ s[2] = 1 THEN (IF ExtSub(u) THEN <<"extension", 0>> ELSE Dead)
  ELSE IF u.x /\ u.n = 1 THEN <<"privateuse", 1>>
  ELSE IF Single(u) THEN <<"extension", 1>>
  ELSE IF s[1] = "extension" THEN <<"extension", 0>>
  ELSE IF s[1] = "language" /\ s[2] > 0 /\ ExtLang(u) THEN <<"language", s[2] - 1>>
  ELSE IF s[1] = "language" /\ Script(u) THEN <<"script", 0>>
  ELSE IF s[1] \in {"language", "script"} /\ Region(u) THEN <<"region", 0>>
  ELSE IF Vari(u) THEN <<"variant", 0>>
  ELSE Dead
May(s) == s[1] \notin {"dead", "start"} /\ ~(s[1] \in {"extension", "privateuse"} /\ s[2] = 1)

(*------------- the crate's way: each section takes what it can -------------*)
Take(s, u) ==
  CASE s = "start" -> "language"
    [] s = "language" /\ (ExtLang(u) \/ (Variant = "region-in-language" /\ u.n = 3)) -> "language"
    [] s = "language" /\ Script(u) /\ Variant # "script-after-region" -> "script"
    [] s \in {"language", "script"} /\ (Region(u) \/ (Variant = "script-after-region" /\ Script(u))) -> "region"
    [] s \in {"language", "script", "region", "variant"} /\ (IF Variant = "variant-length" THEN u.n \in 5..8 ELSE Vari(u)) -> "variant"
    [] s # "privateuse" /\ (Single(u) \/ ExtSub(u)) -> "extension"
    [] OTHER -> "privateuse"
=============================================================================
