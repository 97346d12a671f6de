------------------------------ MODULE Rfc5646 ------------------------------
(* The grammar of RFC 5646, section 2.1, transcribed rule by rule.          *)
(* Letters are matched regardless of case (RFC 5234): symbols are folded.   *)
(*                                                                          *)
(* Rules the RFC does not name but the crate's types do are marked (+).     *)
EXTENDS AbnfTerms

Irregular == {"en-gb-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak",
              "i-klingon", "i-lux", "i-mingo", "i-navajo", "i-pwn", "i-tao",
              "i-tay", "i-tsu", "sgn-be-fr", "sgn-be-nl", "sgn-ch-de"}
Regular   == {"art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu",
              "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang"}

Alpha1    == Cls(ALPHA)
Digit1    == Cls(DIGIT)
Alphanum1 == Cls(ALPHA \cup DIGIT)
Dash1     == Cls({HYPHEN})

Rule(n) ==
  CASE n = "Language-Tag"  -> Alt({NT("langtag"), NT("privateuse"), NT("grandfathered")})
    [] n = "langtag"       -> Cat(<< NT("language"),
                                     Opt(Cat(<<Dash1, NT("script")>>)),
                                     Opt(Cat(<<Dash1, NT("region")>>)),
                                     Star(Cat(<<Dash1, NT("variant")>>)),
                                     Star(Cat(<<Dash1, NT("extension")>>)),
                                     Opt(Cat(<<Dash1, NT("privateuse")>>)) >>)
    [] n = "language"      -> Alt({ Cat(<< NT("primary23"), Opt(Cat(<<Dash1, NT("extlang")>>)) >>),
                                    NT("primary4"),
                                    NT("primary58") })
    [] n = "primary23"     -> Rep(2, 3, Alpha1)      \* shortest ISO 639 code
    [] n = "primary4"      -> Exactly(4, Alpha1)     \* reserved for future use
    [] n = "primary58"     -> Rep(5, 8, Alpha1)      \* registered language subtag
    [] n = "primary"       -> Alt({NT("primary23"), NT("primary4"), NT("primary58")})   \* (+)
    [] n = "extlang"       -> Cat(<< NT("extlang-tag"), Rep(0, 2, Cat(<<Dash1, NT("extlang-tag")>>)) >>)
    [] n = "extlang-tag"   -> Exactly(3, Alpha1)     \* (+)
    [] n = "script"        -> Exactly(4, Alpha1)
    [] n = "region"        -> Alt({Exactly(2, Alpha1), Exactly(3, Digit1)})
    [] n = "variant"       -> Alt({Rep(5, 8, Alphanum1), Cat(<<Digit1, Exactly(3, Alphanum1)>>)})
    [] n = "variants"      -> Opt(Cat(<<NT("variant"), Star(Cat(<<Dash1, NT("variant")>>))>>))        \* (+)
    [] n = "extension"     -> Cat(<< NT("singleton"), Plus(Cat(<<Dash1, NT("extension-subtag")>>)) >>)
    [] n = "extension-subtag" -> Rep(2, 8, Alphanum1)                                               \* (+)
    [] n = "extensions"    -> Opt(Cat(<<NT("extension"), Star(Cat(<<Dash1, NT("extension")>>))>>))    \* (+)
    [] n = "singleton"     -> Cls((ALPHA \cup DIGIT) \ {"x"})
    [] n = "privateuse"    -> Cat(<< Cls({"x"}), Plus(Cat(<<Dash1, NT("privateuse-subtag")>>)) >>)
    [] n = "privateuse-subtag" -> Rep(1, 8, Alphanum1)                                              \* (+)
    [] n = "grandfathered" -> Alt({NT("irregular"), NT("regular")})
    [] n = "irregular"     -> Lits(Irregular)
    [] n = "regular"       -> Lits(Regular)

\* The rule each public type of the crate stands for.
TypeRule ==
  [ LangTag |-> "Language-Tag", NormalLangTag |-> "langtag", PrivateUse |-> "privateuse",
    Language |-> "language", PrimaryLanguage |-> "primary", LanguageExtension |-> "extlang",
    ExtendedLangTag |-> "extlang-tag", Script |-> "script", Region |-> "region",
    Variant |-> "variant", Variants |-> "variants", Extension |-> "extension",
    Extensions |-> "extensions", ExtensionSubtag |-> "extension-subtag",
    PrivateUseSubtag |-> "privateuse-subtag", Grandfathered |-> "grandfathered",
    Singleton |-> "singleton" ]
Types == DOMAIN TypeRule
=============================================================================
