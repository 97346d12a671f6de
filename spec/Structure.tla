----------------------------- MODULE Structure -----------------------------
(* What the values of the crate *are*, stated on texts (byte sequences)     *)
(* without reference to any automaton: a text is a list of subtags, a type  *)
(* is a predicate on such lists, and the components of a normal tag are the *)
(* one way of cutting its list of subtags into the six sections.            *)
(*                                                                          *)
(* This is deliberately a second formulation of RFC 5646, independent of    *)
(* module Rfc5646; module Equivalence checks that the two agree.            *)
EXTENDS Integers, Sequences, FiniteSets, Chars

(*------------------------------ subtags ----------------------------------*)
\* Positions of the hyphens, then the texts between them.
RECURSIVE SplitFrom(_, _, _)
SplitFrom(t, start, i) ==
  IF i > Len(t) THEN << SubSeq(t, start, Len(t)) >>
  ELSE IF t[i] = Dash THEN << SubSeq(t, start, i - 1) >> \o SplitFrom(t, i + 1, i + 1)
  ELSE SplitFrom(t, start, i + 1)
Split(t) == SplitFrom(t, 1, 1)

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE ss[1] \o <<Dash>> \o Join(Tail(ss))

AllAlpha(s) == \A i \in 1..Len(s) : IsAlphaB(s[i])
AllDigit(s) == \A i \in 1..Len(s) : IsDigitB(s[i])
AllAlnum(s) == \A i \in 1..Len(s) : IsAlnumB(s[i])

(*--------------------- predicates on one subtag --------------------------*)
IsPrimary(s)    == Len(s) \in 2..8 /\ AllAlpha(s)
IsExtlangTag(s) == Len(s) = 3 /\ AllAlpha(s)
IsScript(s)     == Len(s) = 4 /\ AllAlpha(s)
IsRegion(s)     == (Len(s) = 2 /\ AllAlpha(s)) \/ (Len(s) = 3 /\ AllDigit(s))
IsVariant(s)    == AllAlnum(s) /\ (Len(s) \in 5..8 \/ (Len(s) = 4 /\ IsDigitB(s[1])))
IsX(s)          == Len(s) = 1 /\ Fold(s[1]) = 120
IsSingleton(s)  == Len(s) = 1 /\ AllAlnum(s) /\ ~IsX(s)
IsExtSubtag(s)  == Len(s) \in 2..8 /\ AllAlnum(s)
IsPuSubtag(s)   == Len(s) \in 1..8 /\ AllAlnum(s)

(*-------------------- predicates on lists of subtags ----------------------*)
AllOf(P(_), ss) == \A i \in 1..Len(ss) : P(ss[i])

IsExtlangs(ss)  == Len(ss) \in 1..3 /\ AllOf(IsExtlangTag, ss)
IsLanguage(ss)  == /\ Len(ss) \in 1..4 /\ IsPrimary(ss[1])
                   /\ Len(ss) > 1 => Len(ss[1]) <= 3 /\ IsExtlangs(Tail(ss))
IsExtension(ss) == Len(ss) >= 2 /\ IsSingleton(ss[1]) /\ AllOf(IsExtSubtag, Tail(ss))
\* one or more extensions in a row
IsExtensions1(ss) ==
  /\ Len(ss) >= 2
  /\ IsSingleton(ss[1]) /\ ~IsSingleton(ss[Len(ss)])
  /\ \A i \in 1..Len(ss) : IsSingleton(ss[i]) \/ IsExtSubtag(ss[i])
  /\ \A i \in 1..Len(ss)-1 : ~(IsSingleton(ss[i]) /\ IsSingleton(ss[i+1]))
IsPrivateUse(ss) == Len(ss) >= 2 /\ IsX(ss[1]) /\ AllOf(IsPuSubtag, Tail(ss))

(*------------------------ sections of a normal tag ------------------------*)
\* A cut gives the number of subtags in each section, in order:
\* language, script, region, variants, extensions, private use.
Slice(ss, from, n) == SubSeq(ss, from, from + n - 1)
CutOk(ss, c) ==
  LET l == c[1]  s == l + c[2]  r == s + c[3]  v == r + c[4]  e == v + c[5]  p == e + c[6]
  IN /\ p = Len(ss)
     /\ IsLanguage(Slice(ss, 1, c[1]))
     /\ c[2] = 1 => IsScript(ss[s])
     /\ c[3] = 1 => IsRegion(ss[r])
     /\ AllOf(IsVariant, Slice(ss, r + 1, c[4]))
     /\ c[5] > 0 => IsExtensions1(Slice(ss, v + 1, c[5]))
     /\ c[6] > 0 => IsPrivateUse(Slice(ss, e + 1, c[6]))

\* All the ways of cutting ss (at most one, see Equivalence!UniqueCut).  The
\* extension section ends at the first 'x', so only that split is tried.
FirstX(ss) == IF \E i \in 1..Len(ss) : IsX(ss[i])
              THEN CHOOSE i \in 1..Len(ss) : IsX(ss[i]) /\ \A j \in 1..i-1 : ~IsX(ss[j])
              ELSE Len(ss) + 1
FirstSingle(ss) == IF \E i \in 1..Len(ss) : Len(ss[i]) <= 1
                   THEN CHOOSE i \in 1..Len(ss) : Len(ss[i]) <= 1 /\ \A j \in 1..i-1 : Len(ss[j]) > 1
                   ELSE Len(ss) + 1
Cuts(ss) ==
  LET fx == FirstX(ss)
      fs == IF FirstSingle(ss) < fx THEN FirstSingle(ss) ELSE fx
      p  == Len(ss) + 1 - fx
      e  == fx - fs
      \* naturals only: more fixed subtags than there are is no cut at all
      sane == { c \in (1..4) \X (0..1) \X (0..1) : c[1] + c[2] + c[3] <= fs - 1 }
  IN { c \in { <<k[1], k[2], k[3], fs - 1 - (k[1] + k[2] + k[3]), e, p>> : k \in sane } : CutOk(ss, c) }

IsNormalList(ss) == Cuts(ss) # {}
CutOf(ss) == CHOOSE c \in Cuts(ss) : TRUE

(*------------------------- grandfathered tags -----------------------------*)
\* In the order the RFC lists them; the first 17 are irregular.
GrandfatheredSpellings == <<
  "en-GB-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon",
  "i-lux", "i-mingo", "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu",
  "sgn-BE-FR", "sgn-BE-NL", "sgn-CH-DE",
  "art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka",
  "zh-min", "zh-min-nan", "zh-xiang" >>
GfCount == Len(GrandfatheredSpellings)
\* their bytes, and folded (written out: TLC evaluates these once; Registry checks them)
GfText == << <<101,110,45,71,66,45,111,101,100>>,
  <<105,45,97,109,105>>,
  <<105,45,98,110,110>>,
  <<105,45,100,101,102,97,117,108,116>>,
  <<105,45,101,110,111,99,104,105,97,110>>,
  <<105,45,104,97,107>>,
  <<105,45,107,108,105,110,103,111,110>>,
  <<105,45,108,117,120>>,
  <<105,45,109,105,110,103,111>>,
  <<105,45,110,97,118,97,106,111>>,
  <<105,45,112,119,110>>,
  <<105,45,116,97,111>>,
  <<105,45,116,97,121>>,
  <<105,45,116,115,117>>,
  <<115,103,110,45,66,69,45,70,82>>,
  <<115,103,110,45,66,69,45,78,76>>,
  <<115,103,110,45,67,72,45,68,69>>,
  <<97,114,116,45,108,111,106,98,97,110>>,
  <<99,101,108,45,103,97,117,108,105,115,104>>,
  <<110,111,45,98,111,107>>,
  <<110,111,45,110,121,110>>,
  <<122,104,45,103,117,111,121,117>>,
  <<122,104,45,104,97,107,107,97>>,
  <<122,104,45,109,105,110>>,
  <<122,104,45,109,105,110,45,110,97,110>>,
  <<122,104,45,120,105,97,110,103>> >>
GfFold == << <<101,110,45,103,98,45,111,101,100>>,
  <<105,45,97,109,105>>,
  <<105,45,98,110,110>>,
  <<105,45,100,101,102,97,117,108,116>>,
  <<105,45,101,110,111,99,104,105,97,110>>,
  <<105,45,104,97,107>>,
  <<105,45,107,108,105,110,103,111,110>>,
  <<105,45,108,117,120>>,
  <<105,45,109,105,110,103,111>>,
  <<105,45,110,97,118,97,106,111>>,
  <<105,45,112,119,110>>,
  <<105,45,116,97,111>>,
  <<105,45,116,97,121>>,
  <<105,45,116,115,117>>,
  <<115,103,110,45,98,101,45,102,114>>,
  <<115,103,110,45,98,101,45,110,108>>,
  <<115,103,110,45,99,104,45,100,101>>,
  <<97,114,116,45,108,111,106,98,97,110>>,
  <<99,101,108,45,103,97,117,108,105,115,104>>,
  <<110,111,45,98,111,107>>,
  <<110,111,45,110,121,110>>,
  <<122,104,45,103,117,111,121,117>>,
  <<122,104,45,104,97,107,107,97>>,
  <<122,104,45,109,105,110>>,
  <<122,104,45,109,105,110,45,110,97,110>>,
  <<122,104,45,120,105,97,110,103>> >>
GfIsRegular(i) == i > 17
\* index of the registration a text spells, as a set (empty if none)
GfIndex(t) == LET f == FoldText(t) IN { i \in 1..GfCount : GfFold[i] = f }
IsGrandfathered(t) == GfIndex(t) # {}
GfLanguage(i) == IF GfIsRegular(i) THEN << Split(GfText[i])[1] >> ELSE <<>>

(*------------------------- the types, on texts ----------------------------*)
IsType(ty, t) ==
  LET ss == Split(t) IN
  CASE ty = "LangTag"           -> IsNormalList(ss) \/ IsPrivateUse(ss) \/ IsGrandfathered(t)
    [] ty = "NormalLangTag"     -> IsNormalList(ss)
    [] ty = "PrivateUse"        -> IsPrivateUse(ss)
    [] ty = "Language"          -> IsLanguage(ss)
    [] ty = "PrimaryLanguage"   -> IsPrimary(t)
    [] ty = "LanguageExtension" -> IsExtlangs(ss)
    [] ty = "ExtendedLangTag"   -> IsExtlangTag(t)
    [] ty = "Script"            -> IsScript(t)
    [] ty = "Region"            -> IsRegion(t)
    [] ty = "Variant"           -> IsVariant(t)
    [] ty = "Variants"          -> t = <<>> \/ AllOf(IsVariant, ss)
    [] ty = "Extension"         -> IsExtension(ss)
    [] ty = "Extensions"        -> t = <<>> \/ IsExtensions1(ss)
    [] ty = "ExtensionSubtag"   -> IsExtSubtag(t)
    [] ty = "PrivateUseSubtag"  -> IsPuSubtag(t)
    [] ty = "Grandfathered"     -> IsGrandfathered(t)
    [] ty = "Singleton"         -> IsSingleton(t)

(*---------------------------- classification ------------------------------*)
IsNormal(t)     == IsNormalList(Split(t))
IsPrivate(t)    == IsPrivateUse(Split(t))
KindOf(t) == IF IsNormal(t) THEN "Normal" ELSE IF IsPrivate(t) THEN "PrivateUse" ELSE "Grandfathered"

(*---------------------- components (options are 0/1-sequences) ------------*)
NoneIfEmpty(ss) == IF ss = <<>> THEN <<>> ELSE << Join(ss) >>

\* section k (1..6) of a normal tag, as a list of subtags
Section(t, k) ==
  LET ss == Split(t)  c == CutOf(ss)
      before == IF k = 1 THEN 0 ELSE IF k = 2 THEN c[1] ELSE IF k = 3 THEN c[1] + c[2]
                ELSE IF k = 4 THEN c[1] + c[2] + c[3]
                ELSE IF k = 5 THEN c[1] + c[2] + c[3] + c[4]
                ELSE c[1] + c[2] + c[3] + c[4] + c[5]
  IN Slice(ss, before + 1, c[k])

\* the extensions in a list of subtags: each starts at a singleton
ExtStarts(ss) == { i \in 1..Len(ss) : Len(ss[i]) = 1 }
RECURSIVE CutAt(_, _)
CutAt(ss, starts) ==
  IF ss = <<>> THEN <<>>
  ELSE LET later == { i \in starts : i > 1 }
           n == IF later = {} THEN Len(ss) ELSE (CHOOSE i \in later : \A j \in later : i <= j) - 1
       IN << SubSeq(ss, 1, n) >> \o CutAt(SubSeq(ss, n + 1, Len(ss)), { i - n : i \in later })
ExtensionsOf(t) == IF t = <<>> THEN <<>>
                   ELSE LET xs == CutAt(Split(t), ExtStarts(Split(t)))
                        IN [i \in 1..Len(xs) |-> Join(xs[i])]
\* first extension with the given singleton byte, as an option
ExtensionGet(t, b) ==
  LET xs == ExtensionsOf(t)
      hits == { i \in 1..Len(xs) : Fold(xs[i][1]) = Fold(b) }
  IN IF hits = {} THEN <<>> ELSE << xs[CHOOSE i \in hits : \A j \in hits : i <= j] >>

\* What each accessor of each type returns: an option.
Part(ty, name, t) ==
  CASE ty \in {"LangTag", "NormalLangTag"} /\ name = "language" ->
         IF IsNormal(t) THEN << Join(Section(t, 1)) >>
         ELSE IF IsGrandfathered(t) THEN GfLanguage(CHOOSE i \in GfIndex(t) : TRUE) ELSE <<>>
    [] ty \in {"LangTag", "NormalLangTag"} /\ name = "script" ->
         IF IsNormal(t) THEN NoneIfEmpty(Section(t, 2)) ELSE <<>>
    [] ty \in {"LangTag", "NormalLangTag"} /\ name = "region" ->
         IF IsNormal(t) THEN NoneIfEmpty(Section(t, 3)) ELSE <<>>
    [] ty \in {"LangTag", "NormalLangTag"} /\ name = "variants" ->
         IF IsNormal(t) THEN << Join(Section(t, 4)) >> ELSE << <<>> >>
    [] ty \in {"LangTag", "NormalLangTag"} /\ name = "extensions" ->
         IF IsNormal(t) THEN << Join(Section(t, 5)) >> ELSE << <<>> >>
    [] ty \in {"LangTag", "NormalLangTag"} /\ name = "private_use" ->
         IF IsNormal(t) THEN NoneIfEmpty(Section(t, 6)) ELSE <<>>
    [] ty = "LangTag" /\ name = "as_normal"        -> IF IsNormal(t) THEN <<t>> ELSE <<>>
    [] ty = "LangTag" /\ name = "as_private_use"   -> IF IsPrivate(t) THEN <<t>> ELSE <<>>
    [] ty = "Language" /\ name = "primary"   -> << Split(t)[1] >>
    [] ty = "Language" /\ name = "extension" -> NoneIfEmpty(Tail(Split(t)))
    [] ty = "Variants" /\ name = "first" -> IF t = <<>> THEN <<>> ELSE << Split(t)[1] >>
    [] ty = "Variants" /\ name = "last"  -> IF t = <<>> THEN <<>> ELSE << Split(t)[Len(Split(t))] >>
    [] ty = "Extension" /\ name = "singleton" -> << Split(t)[1] >>

\* The type of what an accessor returns.
PartType(ty, name) ==
  CASE name = "language" -> "Language" [] name = "script" -> "Script" [] name = "region" -> "Region"
    [] name = "variants" -> "Variants" [] name = "extensions" -> "Extensions"
    [] name = "private_use" -> "PrivateUse" [] name = "as_normal" -> "NormalLangTag"
    [] name = "as_private_use" -> "PrivateUse" [] name = "primary" -> "PrimaryLanguage"
    [] name = "extension" -> "LanguageExtension" [] name = "first" -> "Variant"
    [] name = "last" -> "Variant" [] name = "singleton" -> "Singleton"

PartNames(ty) ==
  CASE ty = "LangTag" -> {"language", "script", "region", "variants", "extensions", "private_use",
                          "as_normal", "as_private_use"}
    [] ty = "NormalLangTag" -> {"language", "script", "region", "variants", "extensions", "private_use"}
    [] ty = "Language" -> {"primary", "extension"}
    [] ty = "Variants" -> {"first", "last"}
    [] ty = "Extension" -> {"singleton"}
    [] OTHER -> {}

\* What iterating over a value yields.
Items(ty, t) ==
  CASE ty = "LangTag" ->       \* private_use_subtags
         IF IsNormal(t) /\ Section(t, 6) # <<>> THEN Tail(Section(t, 6)) ELSE <<>>
    [] ty = "NormalLangTag" -> IF Section(t, 6) # <<>> THEN Tail(Section(t, 6)) ELSE <<>>
    [] ty = "PrivateUse" -> Tail(Split(t))
    [] ty = "Language" -> Tail(Split(t))     \* extension_subtags
    [] ty = "LanguageExtension" -> Split(t)
    [] ty = "Variants" -> IF t = <<>> THEN <<>> ELSE Split(t)
    [] ty = "Extensions" -> ExtensionsOf(t)
    [] ty = "Extension" -> Tail(Split(t))
ItemType(ty) ==
  CASE ty \in {"LangTag", "NormalLangTag", "PrivateUse"} -> "PrivateUseSubtag"
    [] ty \in {"Language", "LanguageExtension"} -> "ExtendedLangTag"
    [] ty = "Variants" -> "Variant" [] ty = "Extensions" -> "Extension"
    [] ty = "Extension" -> "ExtensionSubtag"
Iterable == {"LangTag", "NormalLangTag", "PrivateUse", "Language", "LanguageExtension",
             "Variants", "Extensions", "Extension"}

(*------------------------- equality and ordering --------------------------*)
Same(t, u) == FoldText(t) = FoldText(u)

\* First position where the folded texts differ, 0 if one is a prefix of the other.
FirstDiff(t, u) ==
  LET n == IF Len(t) < Len(u) THEN Len(t) ELSE Len(u)
      ds == { i \in 1..n : Fold(t[i]) # Fold(u[i]) }
  IN IF ds = {} THEN 0 ELSE CHOOSE i \in ds : \A j \in ds : i <= j

\* What the documented order fixes: -1, 0, 1.  A text and a proper prefix of
\* it are ordered one way or the other (the implementation puts the prefix
\* *after* its extensions; nothing relies on which), see Compare.
OrderOk(t, u, r) ==
  IF Same(t, u) THEN r = 0
  ELSE LET d == FirstDiff(t, u) IN
       IF d = 0 THEN r \in {0 - 1, 1}
       ELSE r = (IF Fold(t[d]) < Fold(u[d]) THEN 0 - 1 ELSE 1)
=============================================================================
