---------------------------- MODULE Equivalence ----------------------------
(* The two formulations of RFC 5646 - the ABNF rules with their derivative  *)
(* automaton (module Derivatives, which the conformance harness replays)    *)
(* and the declarative one over subtags (module Structure, which trace      *)
(* validation uses) - agree, on every text TLC builds here.                 *)
(*                                                                          *)
(* A text is grown piece by piece, a piece being a single byte (config      *)
(* EquivalenceChars) or a whole subtag (config EquivalenceSubtags).  The    *)
(* automata of all types read it at the same time; a text that no automaton *)
(* can continue is checked and then abandoned.                              *)
EXTENDS Derivatives, TLC, IOUtils
S == INSTANCE Structure

CONSTANTS Pieces,      \* set of byte sequences to append
          MaxPieces

VARIABLES w,           \* the text so far
          n,           \* pieces used
          qs           \* type -> derivative set

vars == <<w, n, qs>>

Init == w = <<>> /\ n = 0 /\ qs = [ty \in Types |-> {NT(TypeRule[ty])}]

Alive == \E ty \in Types : qs[ty] # {}

Grow(p) == /\ n < MaxPieces /\ Alive
           /\ w' = w \o p /\ n' = n + 1
           /\ qs' = [ty \in Types |-> Run(qs[ty], SymText(p))]
Next == \E p \in Pieces : Grow(p)
Spec == Init /\ [][Next]_vars

(* 1. acceptance *)
SameLanguage == \A ty \in Types : Accepts(qs[ty]) <=> S!IsType(ty, w)

(* 2. the cut into sections is unique *)
UniqueCut == Cardinality(S!Cuts(S!Split(w))) <= 1

(* 3. decomposition: the declarative sections are the spans the parse tree  *)
(*    assigns to the rules.                                                 *)
\* all the accepting parses of w by rule nm: sequences of paths
RECURSIVE Parses(_, _)
Parses(t, sy) ==
  IF sy = <<>> THEN (IF Nullable(t) THEN {<<>>} ELSE {})
  ELSE UNION { { <<p.path>> \o r : r \in Parses(p.rest, Tail(sy)) } : p \in PD(t, Head(sy)) }

Has(path, rule) == \E i \in 1..Len(path) : path[i] = rule
\* the characters read inside `rule`, from first to last
Span(parse, rule) ==
  LET at == { i \in 1..Len(parse) : Has(parse[i], rule) }
  IN IF at = {} THEN <<>>
     ELSE LET lo == CHOOSE i \in at : \A j \in at : i <= j
              hi == CHOOSE i \in at : \A j \in at : i >= j
          IN SubSeq(w, lo, hi)
Opt1(x) == IF x = <<>> THEN <<>> ELSE <<x>>

SameParts ==
  Accepts(qs["NormalLangTag"]) =>
    LET ps == Parses(NT("langtag"), SymText(w)) IN
    /\ Cardinality(ps) = 1
    /\ LET p == CHOOSE x \in ps : TRUE IN
       /\ S!Part("NormalLangTag", "language", w)    = Opt1(Span(p, "language"))
       /\ S!Part("NormalLangTag", "script", w)      = Opt1(Span(p, "script"))
       /\ S!Part("NormalLangTag", "region", w)      = Opt1(Span(p, "region"))
       /\ S!Part("NormalLangTag", "variants", w)    = << Span(p, "variant") >>
       /\ S!Part("NormalLangTag", "extensions", w)  = << Span(p, "extension") >>
       /\ S!Part("NormalLangTag", "private_use", w) = Opt1(Span(p, "privateuse"))

(* 4. properties of the specification itself *)
\* C04: every accepted tag has a form, the kinds are exhaustive
KindTotal == S!IsType("LangTag", w) =>
  /\ S!IsNormal(w) \/ S!IsPrivate(w) \/ S!IsGrandfathered(w)
  /\ ~(S!IsNormal(w) /\ S!IsPrivate(w)) /\ ~(S!IsPrivate(w) /\ S!IsGrandfathered(w))
\* C06: the sections, joined, are the tag; every part and item is of its type
Lossless == S!IsType("NormalLangTag", w) =>
  S!Join(S!Section(w,1) \o S!Section(w,2) \o S!Section(w,3) \o S!Section(w,4)
         \o S!Section(w,5) \o S!Section(w,6)) = w
Closed == \A ty \in Types : S!IsType(ty, w) =>
  /\ \A nm \in S!PartNames(ty) : \A i \in 1..Len(S!Part(ty, nm, w)) :
        S!IsType(S!PartType(ty, nm), S!Part(ty, nm, w)[i])
  /\ ty \in S!Iterable => \A i \in 1..Len(S!Items(ty, w)) : S!IsType(S!ItemType(ty), S!Items(ty, w)[i])
\* C09: looking a singleton up
Lookup == S!IsType("Extensions", w) =>
  \A b \in {48, 97, 65} :
    LET g == S!ExtensionGet(w, b) IN
    IF g = <<>> THEN \A i \in 1..Len(S!ExtensionsOf(w)) : Fold(S!ExtensionsOf(w)[i][1]) # Fold(b)
    ELSE /\ \E i \in 1..Len(S!ExtensionsOf(w)) : S!ExtensionsOf(w)[i] = g[1]
         /\ Fold(g[1][1]) = Fold(b)

\* C19: nothing depends on letter case
Upper(t) == [i \in 1..Len(t) |-> IF IsLower(t[i]) THEN t[i] - 32 ELSE t[i]]
CaseBlind == \A ty \in Types :
  /\ S!IsType(ty, w) <=> S!IsType(ty, Upper(w))
  /\ S!IsType(ty, w) =>
       /\ \A nm \in S!PartNames(ty) :
            LET x == S!Part(ty, nm, w)  y == S!Part(ty, nm, Upper(w)) IN
            Len(x) = Len(y) /\ \A i \in 1..Len(x) : S!Same(x[i], y[i])
       /\ ty \in S!Iterable =>
            LET x == S!Items(ty, w)  y == S!Items(ty, Upper(w)) IN
            Len(x) = Len(y) /\ \A i \in 1..Len(x) : S!Same(x[i], y[i])

CharPieces == { <<97>>, <<120>>, <<48>>, <<45>>, <<95>> }     \* a x 0 - _
SubtagPieces ==
  LET base == { Text("a"), Text("x"), Text("0"), Text("ab"), Text("a1"), Text("abc"), Text("012"), Text("a1b"),
                Text("abcd"), Text("0abc"), Text("a012"), Text("abcde"), Text("1abcd"),
                Text("abcdefgh"), Text("abcdefghi"), Text("min"), Text("zh"), Text("nan"), Text("i"), Text("no"), Text("bok"), Text("lux"), <<>> }
  IN { <<45>> \o p : p \in base } \cup base
=============================================================================
