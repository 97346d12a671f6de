------------------------------ MODULE Registry ------------------------------
(* The grandfathered registry and the extension singletons.                 *)
(* Starting from each registered spelling, every way of changing letter     *)
(* case, one letter at a time, is explored.                                 *)
EXTENDS Structure, TLC, IOUtils, Json
R == INSTANCE Rfc5646

VARIABLES i,     \* registration (position in RFC 5646's list)
          t,     \* its text, in some letter case
          k      \* letters before position k have had their case chosen

DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"
Out(x) == IF DUMP THEN PrintT(ToJson(x)) ELSE TRUE

\* The name of a registration as a value: its subtags, capitalised, run together.
Capital(x) == [n \in 1..Len(x) |-> IF n = 1 THEN (IF IsLower(x[n]) THEN x[n] - 32 ELSE x[n])
                                             ELSE (IF IsUpper(x[n]) THEN x[n] + 32 ELSE x[n])]
RECURSIVE Together(_)
Together(ss) == IF ss = <<>> THEN <<>> ELSE Capital(Head(ss)) \o Together(Tail(ss))
Name(j) == Together(Split(GfText[j]))
ASSUME \A j, m \in 1..GfCount : Name(j) = Name(m) => j = m

ASSUME \A j \in 1..GfCount : Out(<<"GF", j, GfText[j], GfLanguage(j), Name(j)>>)
ASSUME \A b \in Byte : Out(<<"SG", b, IsSingleton(<<b>>)>>)

ASSUME \A j \in 1..GfCount : /\ GfText[j] = Text(GrandfatheredSpellings[j])
                              /\ GfFold[j] = FoldText(GfText[j])

\* the two transcriptions list the same tags
Literals == { GfText[j] : j \in 1..GfCount }
ASSUME { FoldText(x) : x \in Literals } = { Text(s) : s \in R!Irregular \cup R!Regular }
ASSUME { FoldText(GfText[j]) : j \in { m \in 1..GfCount : GfIsRegular(m) } } = { Text(s) : s \in R!Regular }

Toggle(b) == IF IsUpper(b) THEN b + 32 ELSE IF IsLower(b) THEN b - 32 ELSE b
Init == i \in 1..GfCount /\ t = GfText[i] /\ k = 1
Keep == k <= Len(t) /\ k' = k + 1 /\ UNCHANGED <<i, t>>
Flip == k <= Len(t) /\ IsAlphaB(t[k]) /\ k' = k + 1 /\ t' = [t EXCEPT ![k] = Toggle(@)] /\ i' = i
Next == Keep \/ Flip
Spec == Init /\ [][Next]_<<i, t, k>>

\* C16: always recognised, as this registration and no other
Recognised == GfIndex(t) = {i}
IsATag == IsType("LangTag", t)
\* the nine regular ones also match langtag, the others match nothing else
RegularIsNormal == /\ GfIsRegular(i) <=> IsNormal(t)
                   /\ ~IsPrivate(t)
\* C16: language of the regular ones is the first subtag
LanguageOk == IF GfIsRegular(i) THEN GfLanguage(i) = << FoldText(Split(t)[1]) >> \/ Same(GfLanguage(i)[1], Split(t)[1])
                                ELSE GfLanguage(i) = <<>>
\* C04
KindOk == KindOf(t) = IF GfIsRegular(i) THEN "Normal" ELSE "Grandfathered"
=============================================================================
