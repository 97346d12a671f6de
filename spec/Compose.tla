------------------------------ MODULE Compose ------------------------------
(* Building values: well-formed pieces are appended, in the order the       *)
(* grammar has them, each after a '-'.  The result is well-formed, and      *)
(* taking it apart gives back exactly the pieces that were put in.          *)
(* (Parsing and accessors are one way of this; building is the other.)      *)
(*                                                                          *)
(* The pieces are drawn from Pools, which has a text of every shape a piece *)
(* can have.  The graph over stages is dumped; the harness walks it with    *)
(* many more texts for the pieces.                                          *)
EXTENDS Structure, TLC, IOUtils, Json

\* What is built: the types it has, and its stages.  Of a stage: at most `max`
\* pieces of type `ty`; joined they are what `acc` of the result returns (as a
\* value of type `list`), one by one the items of the result or of that value.
\* `short`: everything before it has at most so many bytes (0: any number).
St(name, ty, list, max, acc, items, short) ==
  [name |-> name, ty |-> ty, list |-> list, max |-> max, acc |-> acc, items |-> items, short |-> short]
CONSTANTS Pools,       \* stage name -> set of texts
          MaxMany,     \* pieces in a stage without a bound of its own
          Ordered      \* the pieces come in the order of the grammar
Many == 0
Forms ==
  [ tag |-> [types |-> {"LangTag", "NormalLangTag"}, done |-> 1, stages |->
      << St("language", "Language", "Language", 1, "language", "", 0),
         St("script", "Script", "Script", 1, "script", "", 0),
         St("region", "Region", "Region", 1, "region", "", 0),
         St("variants", "Variant", "Variants", Many, "variants", "list", 0),
         St("extensions", "Extension", "Extensions", Many, "extensions", "list", 0),
         St("private_use", "PrivateUse", "PrivateUse", 1, "private_use", "", 0) >>],
    language |-> [types |-> {"Language"}, done |-> 1, stages |->
      << St("primary", "PrimaryLanguage", "PrimaryLanguage", 1, "primary", "", 0),
         St("extlangs", "ExtendedLangTag", "LanguageExtension", 3, "extension", "list", 3) >>],
    extlang |-> [types |-> {"LanguageExtension"}, done |-> 1, stages |->
      << St("extlangs", "ExtendedLangTag", "LanguageExtension", 3, "", "result", 0) >>],
    variants |-> [types |-> {"Variants"}, done |-> 1, stages |->
      << St("variants", "Variant", "Variants", Many, "", "result", 0) >>],
    extension |-> [types |-> {"Extension", "Extensions"}, done |-> 2, stages |->
      << St("singleton", "Singleton", "Singleton", 1, "singleton", "", 0),
         St("exsubtags", "ExtensionSubtag", "", Many, "", "result", 0) >>],
    extensions |-> [types |-> {"Extensions"}, done |-> 1, stages |->
      << St("extensions", "Extension", "Extensions", Many, "", "result", 0) >>],
    private_use |-> [types |-> {"PrivateUse", "LangTag"}, done |-> 2, stages |->
      << St("x", "", "", 1, "", "", 0),
         St("pusubtags", "PrivateUseSubtag", "", Many, "", "result", 0) >>] ]
FormNames == DOMAIN Forms
\* the type whose items the pieces of a form with items = "result" are
ItemsOf(f) == CHOOSE ty \in Forms[f].types : ty \in Iterable /\ \A u \in Forms[f].types : u = ty \/ u \in {"Extensions", "LangTag"}

DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"
Emit(x) == IF DUMP THEN PrintT(ToJson(x)) ELSE TRUE

VARIABLES form, stage,  \* the last stage a piece was put in for; 0 at the start
          put,          \* stage -> the pieces put in
          text          \* so far
vars == <<form, stage, put, text>>
Stages == Forms[form].stages

Init == form \in FormNames /\ stage = 0 /\ put = [k \in 1..Len(Stages) |-> <<>>] /\ text = <<>>

Put(k, c) ==
  LET s == Stages[k] IN
  /\ Ordered => k > stage \/ (k = stage /\ s.max # 1)
  /\ stage = 0 => k = 1               \* each starts with its first stage
  /\ Len(put[k]) < IF s.max = Many THEN MaxMany ELSE s.max
  /\ (s.short > 0 /\ k # stage) => Len(text) <= s.short
  /\ stage' = k
  /\ put' = [put EXCEPT ![k] = Append(@, c)]
  /\ text' = IF text = <<>> THEN c ELSE text \o <<Dash>> \o c
  /\ form' = form
  /\ Emit(<<"CP-E", form, stage, k, s.name, s.ty, s.list, s.max, s.acc, s.items, s.short>>)
Next == \E k \in 1..Len(Stages) : \E c \in Pools[Stages[k].name] : Put(k, c)
Spec == Init /\ [][Next]_vars

PoolsOk == \A f \in FormNames : \A k \in 1..Len(Forms[f].stages) :
             LET s == Forms[f].stages[k]
             IN \A c \in Pools[s.name] : IF s.name = "x" THEN IsX(c) ELSE IsType(s.ty, c)
ASSUME PoolsOk
ASSUME \A f \in FormNames : \A ty \in Forms[f].types : Emit(<<"CP-F", f, ty, Forms[f].done, ty = ItemsOf(f)>>)

Done == stage >= Forms[form].done
(* what was put in comes out *)
Accepted == Done => \A ty \in Forms[form].types : IsType(ty, text)
Own == ItemsOf(form)
GivesBack == Done =>
  \A k \in 1..Len(Stages) :
    LET s == Stages[k]
        all == Join(put[k])
    IN /\ s.acc # "" =>
            LET out == Part(Own, s.acc, text)
            IN IF put[k] = <<>> THEN out = (IF s.acc \in {"variants", "extensions"} THEN << <<>> >> ELSE <<>>)
               ELSE out = << all >> /\ IsType(s.list, all)
       /\ s.items = "list" /\ put[k] # <<>> => Items(s.list, all) = put[k]
       /\ s.items = "result" => Items(Own, text) = put[k]
\* the text is the pieces and the '-' between them, nothing else
RECURSIVE Bytes(_)
Bytes(ss) == IF ss = <<>> THEN 0 ELSE Len(ss[1]) + 1 + Bytes(Tail(ss))
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE Bytes(put[k]) + Sum(k - 1)
Lossless == stage > 0 => Len(text) + 1 = Sum(Len(Stages))

ThePools ==
  [ language    |-> { Text("ab"), Text("xab"), Text("abcd"), Text("abcdefgh"), Text("zh-min-nan"), Text("no-bok"), Text("abc-def-ghi-jkl") },
    script      |-> { Text("abcd"), Text("Latn") },
    region      |-> { Text("ab"), Text("012") },
    variants    |-> { Text("abcde"), Text("0abc"), Text("1234"), Text("abcdefg1") },
    extensions  |-> { Text("a-bb"), Text("0-00-abcdefgh"), Text("A-xx-a0c") },
    private_use |-> { Text("x-x"), Text("X-a-bcd-12345678") },
    primary     |-> { Text("ab"), Text("xab"), Text("abcd"), Text("abcdefgh") },
    extlangs    |-> { Text("abc"), Text("XYZ") },
    singleton   |-> { Text("a"), Text("9"), Text("Y") },
    exsubtags   |-> { Text("xx"), Text("a1"), Text("abcdefgh") },
    x           |-> { Text("x"), Text("X") },
    pusubtags   |-> { Text("x"), Text("0"), Text("ab"), Text("abcd1234") } ]
QuickPools ==
  [ language    |-> { Text("ab"), Text("abcdefgh"), Text("zh-min-nan"), Text("abc-def-ghi-jkl") },
    script      |-> { Text("abcd") },
    region      |-> { Text("ab"), Text("012") },
    variants    |-> { Text("abcde"), Text("0abc") },
    extensions  |-> { Text("a-bb"), Text("A-xx-a0c") },
    private_use |-> { Text("x-x-ab") },
    primary     |-> { Text("ab"), Text("xab"), Text("abcd"), Text("abcdefgh") },
    extlangs    |-> { Text("abc"), Text("XYZ") },
    singleton   |-> { Text("a"), Text("9"), Text("Y") },
    exsubtags   |-> { Text("xx"), Text("a1"), Text("abcdefgh") },
    x           |-> { Text("x"), Text("X") },
    pusubtags   |-> { Text("x"), Text("0"), Text("ab"), Text("abcd1234") } ]
\* enough for every edge of the graph to be there
DumpPools ==
  [ language    |-> { Text("ab") }, script |-> { Text("abcd") }, region |-> { Text("012") },
    variants    |-> { Text("0abc") }, extensions |-> { Text("a-bb") }, private_use |-> { Text("x-x") },
    primary     |-> { Text("ab"), Text("abcd") }, extlangs |-> { Text("abc") },
    singleton   |-> { Text("a") }, exsubtags |-> { Text("xx") },
    x           |-> { Text("x") }, pusubtags |-> { Text("x") } ]
=============================================================================
