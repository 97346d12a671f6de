---------------------------- MODULE SessionSmall ----------------------------
(* The session, explored exhaustively over a small vocabulary: every event  *)
(* that makes sense, with every result the specification permits.  (The     *)
(* other uses of Session follow one history at a time.)                     *)
EXTENDS Session

CONSTANTS Vocabulary,   \* pairs <<type, text>>
          Kinds,        \* of events
          MaxEvents,
          MaxVals, MaxIts, MaxCols

VARIABLE n
gvars == <<vals, its, cols, hs, ords, n>>

Collecting == { <<"LangTag", Text("en")>>, <<"LangTag", Text("EN")>>, <<"LangTag", Text("en-x-a")>>, <<"LangTag", Text("fr")>> }
Iterating  == { <<"Variants", Text("1abc-rozaj-RoZaJ")>>, <<"Variants", Text("abcde")>>, <<"NormalLangTag", Text("de-a-bb-x-y")>>,
                <<"PrivateUse", Text("x-a-b")>> }
Classing   == { <<"LangTag", Text("zh-min")>>, <<"LangTag", Text("I-TAO")>>, <<"LangTag", Text("x-a")>>, <<"LangTag", Text("en-US")>>,
                <<"LangTag", Text("en-")>>, <<"Region", Text("us")>>, <<"Region", Text("u")>> }

H == 1..Len(vals)
C2 == 1..Len(cols)
Det2(e) == e @@ ("r" :> Det(e))
Free(e, R) == { e @@ ("r" :> r) : r \in R }
On(k, S) == IF k \in Kinds THEN S ELSE {}
Room == Len(vals) < MaxVals

Possible == UNION {
  On("parse", IF Room THEN { Det2([e |-> "parse", how |-> h, ty |-> v[1], t |-> v[2]]) : h \in {"new_str", "buf_new_string"}, v \in Vocabulary } ELSE {}),
  On("valid", { Det2([e |-> "valid", how |-> "str", ty |-> v[1], t |-> v[2]]) : v \in Vocabulary }),
  On("unchecked", IF Room THEN { Det2([e |-> "parse", how |-> h, ty |-> v[1], t |-> v[2]]) :
                                 h \in {"unchecked_str", "buf_unchecked_vec"}, v \in { w \in Vocabulary : IsType(w[1], w[2]) } } ELSE {}),
  On("kind", { Det2([e |-> "kind", v |-> i]) : i \in { j \in H : vals[j].ty = "LangTag" } }),
  On("asgf", { Det2([e |-> "asgf", v |-> i]) : i \in { j \in H : vals[j].ty = "LangTag" } }),
  On("items", { Det2([e |-> "items", v |-> i]) : i \in { j \in H : vals[j].ty \in {"Variants", "PrivateUse"} } }),
  On("iter", IF Len(its) < MaxIts THEN { Det2([e |-> "iter", v |-> i]) : i \in { j \in H : vals[j].ty \in {"Variants", "PrivateUse"} } } ELSE {}),
  On("next", { Det2([e |-> k, i |-> i]) : k \in {"next", "back"}, i \in { j \in 1..Len(its) : its[j].ty = "Variant" /\ Room } }),
  On("next", { Det2([e |-> "next", i |-> i]) : i \in { j \in 1..Len(its) : its[j].ty # "Variant" /\ Room } }),
  On("nth", { Det2([e |-> k, i |-> i, k |-> m]) : k \in {"nth", "nthback"}, m \in 0..2, i \in { j \in 1..Len(its) : its[j].ty = "Variant" /\ Room } }),
  On("rest", { Det2([e |-> "rest", i |-> i, how |-> h]) : i \in 1..Len(its), h \in {"collect", "last"} }),
  On("sort", IF Len(vals) < 2 THEN {} ELSE
               { e \in Free([e |-> "sort", vs |-> [i \in H |-> i], how |-> "cmp"], [H -> H]) : Allowed(e) }),
  On("part", { Det2([e |-> "part", v |-> i, name |-> p]) : i \in { j \in H : vals[j].ty = "NormalLangTag" /\ Room },
                                                            p \in {"language", "script", "variants", "extensions", "private_use"} }),
  On("eq", { Det2([e |-> "eq", a |-> i, b |-> j]) : i \in H, j \in H }),
  On("cmp", UNION { Free([e |-> "cmp", a |-> i, b |-> j], {0 - 1, 0, 1}) : i \in H, j \in H }),
  On("hash", UNION { Free([e |-> "hash", v |-> i, h |-> "sip"], {"p", "q"}) : i \in H }),
  On("conv", { Det2([e |-> "conv", v |-> i, op |-> o]) : i \in { j \in H : vals[j].form = "buf" /\ Room }, o \in {"as_ref", "clone"} }),
  On("col", IF Len(cols) < MaxCols THEN { Det2([e |-> "col", kind |-> k, ty |-> "LangTag"]) : k \in {"hset", "bmap"} } ELSE {}),
  On("ins", { Det2([e |-> "ins", c |-> c, v |-> i, x |-> x]) : c \in C2, i \in H, x \in {1, 2} }),
  On("del", { Det2([e |-> "del", c |-> c, v |-> i]) : c \in C2, i \in H }),
  On("get", { Det2([e |-> k, c |-> c, v |-> i]) : k \in {"get", "has"}, c \in C2, i \in H }) }

Init == SessionInit /\ n = 0
Next == n < MaxEvents /\ n' = n + 1 /\ \E e \in Possible : Step(e)
Spec == Init /\ [][Next]_gvars
View == <<vals, its, cols, hs, ords>>

(* what any history of results amounts to *)
\* C13: two values that are equal never hash differently
HashIsFunction == \A x, y \in hs : (x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3]) => x[4] = y[4]
\* C12: no two texts are each before the other
OrdersAgree == \A x, y \in ords : x[1] = y[1] => ~(x[2] = y[3] /\ x[3] = y[2])
\* C11: permitted results of == are an equivalence on the values in hand
EqIsEquivalence == \A i, j, k \in H : /\ Same(vals[i].t, vals[i].t)
                                      /\ (Same(vals[i].t, vals[j].t) => Same(vals[j].t, vals[i].t))
                                      /\ (Same(vals[i].t, vals[j].t) /\ Same(vals[j].t, vals[k].t) => Same(vals[i].t, vals[k].t))
\* C14, C21: a value in hand is never changed by anything
ValuesStay == [][ /\ Len(vals') >= Len(vals)
                  /\ \A i \in 1..Len(vals) : vals'[i] = vals[i] ]_gvars
\* C13: the keys of a collection are texts of values that were inserted, and found again
FoundAgain == \A c \in C2 : \A x \in 1..Len(Ent(c)) : Hit(c, Ent(c)[x][1]) = {x}
\* every event that makes sense has a permitted result: nothing is ever impossible
SomeResult == \A i, j \in H : ("cmp" \in Kinds /\ vals[i].ty = vals[j].ty) =>
                 Cardinality({ r \in {0 - 1, 0, 1} : Allowed([e |-> "cmp", a |-> i, b |-> j, r |-> r]) }) \in 1..2
=============================================================================
