----------------------------- MODULE SessionGen -----------------------------
(* Generates behaviours of the session (TLC -simulate) and prints them, one *)
(* JSON event per line, for replay into the real code.  At each step one    *)
(* event is drawn at random among those that make sense in the state.       *)
EXTENDS Session, Json, IOUtils

CONSTANT MaxEvents

VARIABLE n
gvars == <<vals, its, cols, hs, ords, n>>

\* Which events to draw; a profile per property (see checks).
Profile == IF "PROFILE" \in DOMAIN IOEnv THEN IOEnv.PROFILE ELSE "all"
Kinds ==
  CASE Profile = "accept"  -> {"parse", "valid", "unchecked"}
    [] Profile = "class"   -> {"parse", "kind", "asgf", "part", "typed"}
    [] Profile = "parts"   -> {"parse", "part", "part2"}
    [] Profile = "iter"    -> {"parse", "part", "iter", "next", "back", "next2", "items", "nth", "nthback", "rest"}
    [] Profile = "ext"     -> {"parse", "part", "extget", "extiter", "iter", "next", "items", "nth", "rest"}
    [] Profile = "eq"      -> {"parse", "recase", "eq", "eqtext", "conv", "part"}
    [] Profile = "cmp"     -> {"parse", "recase", "cmp", "cmptext", "conv", "part"}
    [] Profile = "hash"    -> {"parse", "recase", "hash", "col", "ins", "has", "get", "del", "all", "len", "conv", "part"}
    [] Profile = "conv"    -> {"parse", "unchecked", "conv", "eq", "part", "hash"}
    [] Profile = "serde"   -> {"parse", "ser", "de", "eq"}
    [] Profile = "gf"      -> {"gf", "gfinfo", "parse", "asgf", "kind", "typed"}
    [] Profile = "single"  -> {"single", "scmp", "seqb", "sext", "shash"}
    [] OTHER -> {"parse", "recase", "part", "kind", "asgf", "iter", "next", "back", "items", "extget", "extiter",
                 "eq", "eqtext", "cmp", "cmptext", "hash", "conv", "col", "ins", "has", "get", "del", "all", "len",
                 "ser", "de", "gf", "single", "scmp", "seqb", "sext", "shash", "typed", "nth", "nthback", "rest",
                 "valid", "unchecked"}

(*--------------------------------- texts ----------------------------------*)
Prims == <<"fr", "en", "zh", "und", "i", "x", "sgn", "de", "no", "art", "abcd", "klingon", "a", "f1", "qqqqqqqq">>
Exts  == <<"", "", "", "", "-yue", "-min-nan", "-abc-def-ghi", "-abc-def-ghi-jkl", "-GB">>
Scripts == <<"", "", "-Latn", "-hant", "-ZYYY", "-a1cd">>
Regions == <<"", "", "-FR", "-419", "-be", "-1a">>
Vars  == <<"", "", "", "-rozaj", "-1994-biske", "-1606nict-1abc", "-oed", "-lojban", "-abcdefgh-8bcd-valencia", "-toolonggg">>
Exns  == <<"", "", "", "-u-ca-gregory", "-a-bb-B-cc", "-t-fr-0-aaa-u-bb-cc", "-T-aa-t-bb", "-a", "-9-12345678-zz">>
Pus   == <<"", "", "", "-x-a", "-X-x-x-12345678", "-x-private-u-aa", "-x", "-x-">>
Others == <<"", "-", "x-a-b", "X-x", "en-GB-oed", "i-klingon", "zh-min", "ZH-MIN-NAN", "sgn-ch-de", "art-lojban",
           "cel-gaulish", "i-default", "no-bok", "sgn-BE-FX", "zh_min", "fr ", "x", "u-ca", "abc-def", "a-bb-b-cc",
           "rozaj-1994", "ab", "abc", "abcd", "1abc", "012", "a1", "0-aa", "x-1">>
\* Bind e(x) for one random x of S.
TagText(a, b, c, d, e, f, g) == Text(a \o b \o c \o d \o e \o f \o g)
Recase(t, U) == [i \in 1..Len(t) |-> IF (i % 5) \in U THEN (IF IsLower(t[i]) THEN t[i] - 32 ELSE t[i])
                                                       ELSE Fold(t[i])]

Types0 == {"LangTag", "NormalLangTag", "PrivateUse", "Language", "PrimaryLanguage", "LanguageExtension",
           "ExtendedLangTag", "Script", "Region", "Variant", "Variants", "Extension", "Extensions",
           "ExtensionSubtag", "PrivateUseSubtag"}
Hows == {"new_str", "from_str", "try_from_str", "new_bytes", "from_bytes", "try_from_bytes",
         "parse", "buf_new_string", "buf_from_string", "buf_try_string", "buf_new_vec", "buf_from_bytes", "buf_try_vec"}

(*------------------------------- drawing -----------------------------------*)
Put(e) == /\ Step(e) /\ n' = n + 1
          /\ PrintT(ToJson(<<"EV", TLCGet("level"), e>>))
PutDet(e) == Put(e @@ ("r" :> Det(e)))

HandlesOf(TS) == { i \in 1..Len(vals) : vals[i].ty \in TS }
Handles == 1..Len(vals)
OneOf(ss) == {ss[RandomElement(1..Len(ss))]}
Some(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

DrawText(P(_)) ==
  \E k \in Some(1..6) :
    IF k <= 4 THEN
       \E a \in OneOf(Prims), b \in OneOf(Exts), c \in OneOf(Scripts), d \in OneOf(Regions),
          e \in OneOf(Vars), f \in OneOf(Exns), g \in OneOf(Pus) : P(TagText(a, b, c, d, e, f, g))
    ELSE IF k = 5 \/ Handles = {} THEN \E o \in OneOf(Others) : P(Text(o))
    ELSE \E v \in Some(Handles), U \in Some(SUBSET (0..4)) : P(Recase(vals[v].t, U))

\* the type is drawn after the text, so that most parses of component texts succeed
DrawType(t, P(_)) ==
  \E k \in Some(1..4) :
    LET fits == { ty \in Types0 : IsType(ty, t) } IN
    IF k = 1 \/ fits = {} THEN \E ty \in Some(Types0) : P(ty)
    ELSE \E ty \in Some(fits) : P(ty)

Singles == (48..57) \cup (65..87) \cup (89..90) \cup (97..119) \cup (121..122)
CmpResult(t, u, well) == IF ~well THEN {2} ELSE { r \in {0 - 1, 0, 1} : OrderOk(t, u, r) }
OwnForm(v) == vals[v].form

Draw(kind) ==
  CASE kind = "parse" -> DrawText(LAMBDA t : DrawType(t, LAMBDA ty : \E h \in Some(Hows) :
                           PutDet([e |-> "parse", ty |-> ty, how |-> h, t |-> t])))
    [] kind = "recase" -> \E v \in Some(Handles), U \in Some(SUBSET (0..4)), h \in Some(Hows) :
                           PutDet([e |-> "parse", ty |-> vals[v].ty, how |-> h, t |-> Recase(vals[v].t, U)])
    [] kind = "valid" -> DrawText(LAMBDA t : DrawType(t, LAMBDA ty : \E h \in Some({"str", "bytes"}) :
                           PutDet([e |-> "valid", ty |-> ty, how |-> h, t |-> t])))
    [] kind = "unchecked" -> DrawText(LAMBDA t : LET fits == { y \in Types0 : IsType(y, t) } IN
                           \E ty \in Some(IF fits = {} THEN Types0 ELSE fits), h \in Some(IF fits = {} THEN Hows ELSE UncheckedHow) :
                           PutDet([e |-> "parse", ty |-> ty, how |-> h, t |-> t]))
    [] kind = "de" -> DrawText(LAMBDA t : DrawType(t, LAMBDA ty : \E h \in Some({"de_ref", "de_buf"}) :
                           PutDet([e |-> "de", ty |-> ty, how |-> h, t |-> t])))
    [] kind = "ser" -> \E v \in Some(Handles) : PutDet([e |-> "ser", v |-> v])
    [] kind \in {"part", "part2"} -> \E v \in Some({ i \in Handles : PartNames(vals[i].ty) # {} }) :
                         \E nm \in Some(PartNames(vals[v].ty)) : PutDet([e |-> "part", v |-> v, name |-> nm])
    [] kind \in {"kind", "asgf"} -> \E v \in Some(HandlesOf({"LangTag"})) : PutDet([e |-> kind, v |-> v])
    [] kind = "items" -> \E v \in Some(HandlesOf(Iterable)) : PutDet([e |-> "items", v |-> v])
    [] kind = "iter" -> \E v \in Some(HandlesOf(Iterable)) : PutDet([e |-> "iter", v |-> v])
    [] kind = "extiter" -> \E v \in Some(HandlesOf({"Extensions"})), b \in Some({97, 65, 116, 84, 117, 85, 48, 57, 98, 122}) :
                         PutDet([e |-> "extiter", v |-> v, b |-> b])
    [] kind = "extget" -> \E v \in Some(HandlesOf({"Extensions"})), b \in Some({97, 65, 116, 84, 117, 85, 48, 57, 98, 122}) :
                         PutDet([e |-> "extget", v |-> v, b |-> b])
    [] kind \in {"next", "next2"} -> \E i \in Some(1..Len(its)) : PutDet([e |-> "next", i |-> i])
    [] kind = "back" -> \E i \in Some({ j \in 1..Len(its) : its[j].ty = "Variant" }) : PutDet([e |-> "back", i |-> i])
    [] kind = "nth" -> \E i \in Some(1..Len(its)), k \in Some(0..3) : PutDet([e |-> "nth", i |-> i, k |-> k])
    [] kind = "nthback" -> \E i \in Some({ j \in 1..Len(its) : its[j].ty = "Variant" }), k \in Some(0..3) :
                         PutDet([e |-> "nthback", i |-> i, k |-> k])
    [] kind = "rest" -> \E i \in Some(1..Len(its)) :
                        \E h \in Some({"collect", "fold", "count", "last"} \cup (IF its[i].ty = "Variant" THEN {"rev", "rfold"} ELSE {})) :
                         PutDet([e |-> "rest", i |-> i, how |-> h])
    [] kind = "typed" -> \E f \in Some({"g"} \cup (IF HandlesOf({"NormalLangTag"}) = {} THEN {} ELSE {"n"})
                                             \cup (IF HandlesOf({"PrivateUse"}) = {} THEN {} ELSE {"p"})) :
                         IF f = "g" THEN \E i \in Some(1..GfCount) : PutDet([e |-> "typed", form |-> "g", i |-> i])
                         ELSE \E v \in Some(HandlesOf({IF f = "n" THEN "NormalLangTag" ELSE "PrivateUse"})) :
                                PutDet([e |-> "typed", form |-> f, v |-> v])
    [] kind = "sext" -> \E a \in Some(Singles), b \in Some(Singles), o \in Some({"max", "min"}), s \in Some({0, 1}) :
                         LET c == IF s = 1 /\ IsAlphaB(a) THEN (IF IsUpper(a) THEN a + 32 ELSE a - 32) ELSE b IN
                         \E r \in Some({ x \in {a, c} : Allowed([e |-> "sext", a |-> a, b |-> c, op |-> o, r |-> x]) }) :
                         Put([e |-> "sext", a |-> a, b |-> c, op |-> o, r |-> r])
    [] kind = "shash" -> \E a \in Some({65, 97, 48, 66, 98}), b \in Some({65, 97, 48}), k \in Some({1, 2}), h \in Some({"sip", "fnv", "calls"}) :
                         LET t == IF k = 1 THEN <<a>> ELSE <<a, b>> IN
                         \E w \in Some(IF k = 1 THEN {"one", "list"} ELSE {"list"}) :
                         Put([e |-> "shash", how |-> w, t |-> t, h |-> h, r |-> FoldText(t)])
    [] kind = "eq"  -> \E a \in Some(Handles) : \E b \in Some(HandlesOf({vals[a].ty})) :
                         PutDet([e |-> "eq", a |-> a, b |-> b])
    [] kind = "eqtext" -> \E v \in Some(Handles), f \in Some({"str", "ref_str", "bytes", "ref_bytes", "string", "vec"}), d \in Some({0, 1}) :
                         DrawText(LAMBDA t : PutDet([e |-> "eqtext", v |-> v, form |-> f, rev |-> d, t |-> t]))
    [] kind = "cmp" -> \E a \in Some(Handles) : \E b \in Some(HandlesOf({vals[a].ty})) :
                         \E r \in Some(CmpResult(vals[a].t, vals[b].t, TRUE)) :
                         Put([e |-> "cmp", a |-> a, b |-> b, r |-> r,
                              any |-> B01(Cardinality(CmpResult(vals[a].t, vals[b].t, TRUE)) > 1)])
    [] kind = "cmptext" -> \E v \in Some(Handles), f \in Some({"str", "ref_str", "bytes", "ref_bytes", "string", "vec"}) :
                         DrawText(LAMBDA t : LET R == CmpResult(vals[v].t, t, IsType(vals[v].ty, t)) IN
                           \E r \in Some(R) : Put([e |-> "cmptext", v |-> v, form |-> f, t |-> t, r |-> r,
                                                   any |-> B01(Cardinality(R) > 1)]))
    [] kind = "hash" -> \E v \in Some(Handles), h \in Some({"sip", "fnv", "calls"}) :
                         Put([e |-> "hash", v |-> v, h |-> h, r |-> FoldText(vals[v].t)])
    [] kind = "conv" -> \E v \in Some(Handles) :
                         \E o \in Some({ p \in C!Ops : p[2] = vals[v].form }) :
                         PutDet([e |-> "conv", v |-> v, op |-> o[1]])
    [] kind = "gf" -> DrawText(LAMBDA t : PutDet([e |-> "gf", t |-> t]))
    [] kind = "gfinfo" -> \E i \in Some(1..GfCount) : PutDet([e |-> "gfinfo", i |-> i])
    [] kind = "single" -> \E b \in Some((0..127) \ {92, 34}), h \in Some({"byte", "char", "str", "from_str"}) :
                         PutDet([e |-> "single", how |-> h, t |-> <<b>>])
    [] kind = "scmp" -> \E a, b \in Some((48..57) \cup (65..87) \cup (89..90) \cup (97..119) \cup (121..122)) :
                         PutDet([e |-> "scmp", a |-> a, b |-> b])
    [] kind = "seqb" -> \E a \in Some((48..57) \cup (65..87) \cup (89..90) \cup (97..119) \cup (121..122)) :
                        \E b \in Some({a, Fold(a), 48, 65, 97, 90}), f \in Some({"byte", "char"}) :
                         PutDet([e |-> "seqb", a |-> a, b |-> b, form |-> f])
    [] kind = "col" -> \E v \in Some(Handles), k \in Some({"hset", "bset", "hmap", "bmap"}) :
                         Len(cols) < 3 /\ PutDet([e |-> "col", kind |-> k, ty |-> vals[v].ty])
    [] kind = "ins" -> \E c \in Some({ d \in 1..Len(cols) : HandlesOf({cols[d].ty}) # {} }) : \E v \in Some(HandlesOf({cols[c].ty})) :
                       \E x \in Some(IF IsMap(c) THEN 1..5 ELSE {0}) : PutDet([e |-> "ins", c |-> c, v |-> v, x |-> x])
    [] kind \in {"has", "get", "del"} -> \E c \in Some({ d \in 1..Len(cols) : HandlesOf({cols[d].ty}) # {} }) : \E v \in Some(HandlesOf({cols[c].ty})) :
                         PutDet([e |-> kind, c |-> c, v |-> v])
    [] kind = "len" -> \E c \in Some(1..Len(cols)) : PutDet([e |-> "len", c |-> c])
    [] kind = "all" -> \E c \in Some(1..Len(cols)) :
                         \* any order allowed by the specification is fine; print the entries only
                         /\ n' = n + 1 /\ UNCHANGED svars
                         /\ PrintT(ToJson(<<"EV", TLCGet("level"), [e |-> "all", c |-> c, r |-> Ent(c)]>>))

GenInit == SessionInit /\ n = 0
Can(k) ==
  CASE k \in {"parse", "valid", "unchecked", "de", "gf", "gfinfo", "single", "scmp", "seqb", "sext", "shash", "typed"} -> TRUE
    [] k \in {"part", "part2"} -> \E i \in Handles : PartNames(vals[i].ty) # {}
    [] k \in {"kind", "asgf"} -> HandlesOf({"LangTag"}) # {}
    [] k \in {"items", "iter"} -> HandlesOf(Iterable) # {}
    [] k \in {"extget", "extiter"} -> HandlesOf({"Extensions"}) # {}
    [] k \in {"next", "next2", "nth", "rest"} -> its # <<>>
    [] k \in {"back", "nthback"} -> \E j \in 1..Len(its) : its[j].ty = "Variant"
    [] k = "col" -> Handles # {} /\ Len(cols) < 3
    [] k \in {"ins", "has", "get", "del"} -> \E c \in 1..Len(cols) : HandlesOf({cols[c].ty}) # {}
    [] k \in {"len", "all"} -> cols # <<>>
    [] OTHER -> Handles # {}
GenNext == /\ n < MaxEvents
           /\ \E k \in Some(IF Len(vals) < 2 /\ "parse" \in Kinds THEN {"parse"}
                           ELSE { k \in Kinds : Can(k) }) : Draw(k)
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
