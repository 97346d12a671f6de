------------------------------ MODULE Session ------------------------------
(* A program using the crate: the values it has obtained, the iterators it  *)
(* is stepping through, the collections it keeps its tags in, and the hash  *)
(* values and orderings it has seen.  Every public operation is one event,  *)
(* a record with its arguments and its result `r`.                          *)
(*                                                                          *)
(* `Allowed(e)` says which results the specification permits in the current *)
(* state; `Step(e)` is the transition.  Module SessionTrace checks recorded *)
(* histories of the real code against it; module SessionGen generates       *)
(* behaviours that are replayed into the real code.                         *)
(*                                                                          *)
(* Conventions: texts are byte sequences; options are sequences of length   *)
(* 0 or 1; handles and indices count from 1; booleans are 0/1.              *)
EXTENDS Structure, TLC

C == INSTANCE Conversion WITH MaxHops <- 0, form <- "", buf <- 0, own <- {}, fresh <- 0,
                              hops <- 0, text <- <<>>, static <- FALSE

VARIABLES vals,    \* values obtained so far: [ty, t, form]
          its,     \* iterators: [ty, items, lo, hi]
          cols,    \* collections: [kind, ty, ent]; ent: list of <<text, value>>
          hs,      \* hashes seen: <<hasher, type, folded text, hash>>
          ords     \* orderings seen between a text and a prefix of it: <<ty, smaller, larger>>

svars == <<vals, its, cols, hs, ords>>

SessionInit == vals = <<>> /\ its = <<>> /\ cols = <<>> /\ hs = {} /\ ords = {}

B01(b) == IF b THEN 1 ELSE 0
V(e) == vals[e.v]
NewVal(ty, t, f) == Append(vals, [ty |-> ty, t |-> t, form |-> f])
\* append the result of an operation that returns an optional value
NewVals(ty, opt, f) == IF opt = <<>> THEN vals ELSE NewVal(ty, opt[1], f)

OwnedHow == {"parse", "buf_new_string", "buf_from_string", "buf_try_string",
             "buf_new_vec", "buf_from_bytes", "buf_try_vec", "de_buf",
             "buf_unchecked_string", "buf_unchecked_vec"}
\* constructors that do not look at the text: the caller has to know that it is well-formed
UncheckedHow == {"unchecked_bytes", "unchecked_str", "buf_unchecked_string", "buf_unchecked_vec"}
ConvOp(op) == CHOOSE o \in C!Ops : o[1] = op
ValueConvs == { o[1] : o \in { p \in C!Ops : p[2] \in {"ref", "buf"} } }

(*------------------------------- ordering --------------------------------*)
Prefixed(t, u) == ~Same(t, u) /\ FirstDiff(t, u) = 0
CmpOk(ty, t, u, r) ==
  /\ OrderOk(t, u, r)
  /\ (r = 0 - 1 => <<ty, FoldText(u), FoldText(t)>> \notin ords)
  /\ (r = 1     => <<ty, FoldText(t), FoldText(u)>> \notin ords)
CmpSeen(ty, t, u, r) ==
  IF ~Prefixed(t, u) THEN ords
  ELSE ords \cup { IF r = 1 THEN <<ty, FoldText(u), FoldText(t)>> ELSE <<ty, FoldText(t), FoldText(u)>> }

(*------------------------------ collections ------------------------------*)
Ent(c) == cols[c].ent
Hit(c, t) == { i \in 1..Len(Ent(c)) : Same(Ent(c)[i][1], t) }
HitOpt(c, t) == LET h == Hit(c, t) IN IF h = {} THEN <<>> ELSE <<Ent(c)[CHOOSE i \in h : TRUE]>>
IsMap(c) == cols[c].kind \in {"hmap", "bmap"}
Without(c, t) == SelectSeq(Ent(c), LAMBDA x : ~Same(x[1], t))
SetEnt(c, en) == [cols EXCEPT ![c].ent = en]
\* the n-th item from the left (right) of what an iterator still has, and the end
LeftOf(i, k) == IF i.lo + k < i.hi THEN <<i.items[i.lo + k + 1]>> ELSE <<>>
RightOf(i, k) == IF i.lo + k < i.hi THEN <<i.items[i.hi - k]>> ELSE <<>>
RestOf(i) == SubSeq(i.items, i.lo + 1, i.hi)
Least(a, b) == IF a < b THEN a ELSE b
SortedOk(ss) == \A i \in 1..Len(ss)-1 : ~Same(ss[i][1], ss[i+1][1]) /\ OrderOk(ss[i][1], ss[i+1][1], 0 - 1)

\* a sorted list of values: r says where each one stood before
SortOk(e) ==
  LET T(i) == vals[e.vs[e.r[i]]].t
      D == 1..Len(e.r)
      ty == vals[e.vs[1]].ty
  IN /\ Len(e.r) = Len(e.vs) /\ { e.r[i] : i \in D } = D
     /\ \A i, j \in D : i < j =>
          /\ CmpOk(ty, T(i), T(j), IF Same(T(i), T(j)) THEN 0 ELSE 0 - 1)
          /\ e.how # "unstable" /\ Same(T(i), T(j)) => e.r[i] < e.r[j]
          /\ Same(T(i), T(j)) => Same(T(i), T(i + 1))     \* equal values are together
SortSeen(e) ==
  ords \cup UNION { CmpSeen(vals[e.vs[1]].ty, vals[e.vs[e.r[k[1]]]].t, vals[e.vs[e.r[k[2]]]].t, 0 - 1) :
                   k \in { p \in (1..Len(e.r)) \X (1..Len(e.r)) : p[1] < p[2] } }

(*--------------------------- allowed results ------------------------------*)
\* The result the specification determines.
Det(e) ==
  CASE e.e = "parse"  -> <<B01(IsType(e.ty, e.t)), e.t>>      \* accepted?, text of the value or the rejected input
    [] e.e = "valid"  -> B01(IsType(e.ty, e.t))             \* only asking
    [] e.e = "de"     -> IF IsType(e.ty, e.t) THEN <<e.t>> ELSE <<>>
    [] e.e = "ser"    -> V(e).t
    [] e.e = "part"   -> Part(V(e).ty, e.name, V(e).t)
    [] e.e = "kind"   -> <<KindOf(V(e).t), B01(IsNormal(V(e).t)), B01(IsPrivate(V(e).t)),
                           B01(IsGrandfathered(V(e).t)), V(e).t>>
    [] e.e = "asgf"   -> LET g == GfIndex(V(e).t) IN IF g = {} THEN <<>> ELSE <<CHOOSE i \in g : TRUE>>
    [] e.e = "items"  -> Items(V(e).ty, V(e).t)
    [] e.e = "iter"   -> Len(its) + 1
    [] e.e = "extiter" -> Len(its) + 1
    [] e.e = "next"   -> LET i == its[e.i] IN IF i.lo < i.hi THEN <<i.items[i.lo + 1]>> ELSE <<>>
    [] e.e = "back"   -> LET i == its[e.i] IN IF i.lo < i.hi THEN <<i.items[i.hi]>> ELSE <<>>
    [] e.e = "nth"    -> LeftOf(its[e.i], e.k)
    [] e.e = "nthback" -> RightOf(its[e.i], e.k)
    [] e.e = "rest"   -> LET x == RestOf(its[e.i]) IN
                         (CASE e.how = "count" -> Len(x)
                           [] e.how = "last"  -> IF x = <<>> THEN <<>> ELSE <<x[Len(x)]>>
                           [] e.how \in {"rev", "rfold"} -> [k \in 1..Len(x) |-> x[Len(x) + 1 - k]]
                           [] OTHER -> x)
    [] e.e = "extget" -> ExtensionGet(V(e).t, e.b)
    \* a typed view made by hand: its kind, whether it is each of them, its language, its text
    [] e.e = "typed"  -> (CASE e.form = "n" -> <<"Normal", 1, 0, 0, Part("NormalLangTag", "language", V(e).t), V(e).t>>
                           [] e.form = "p" -> <<"PrivateUse", 0, 1, 0, <<>>, V(e).t>>
                           [] e.form = "g" -> <<"Grandfathered", 0, 0, 1, GfLanguage(e.i), GfText[e.i]>>)
    [] e.e = "eq"     -> B01(Same(vals[e.a].t, vals[e.b].t))
    [] e.e = "eqtext" -> B01(IsType(V(e).ty, e.t) /\ Same(V(e).t, e.t))
    [] e.e = "conv"   -> V(e).t
    [] e.e = "gf"     -> LET g == GfIndex(e.t) IN IF g = {} THEN <<>> ELSE <<CHOOSE i \in g : TRUE>>
    [] e.e = "gfinfo" -> <<GfText[e.i], GfLanguage(e.i)>>
    [] e.e = "single" -> <<B01(IsSingleton(e.t)), e.t>>
    [] e.e = "scmp"   -> IF Fold(e.a) = Fold(e.b) THEN 0 ELSE IF Fold(e.a) < Fold(e.b) THEN 0 - 1 ELSE 1
    [] e.e = "seqb"   -> B01(Fold(e.a) = Fold(e.b))           \* singleton against a byte or char
    [] e.e = "col"    -> Len(cols) + 1
    [] e.e = "ins"    -> IF IsMap(e.c) THEN (LET h == HitOpt(e.c, V(e).t) IN IF h = <<>> THEN <<>> ELSE <<h[1][2]>>)
                                       ELSE <<B01(Hit(e.c, V(e).t) = {})>>
    [] e.e = "has"    -> B01(Hit(e.c, V(e).t) # {})
    [] e.e = "get"    -> HitOpt(e.c, V(e).t)
    [] e.e = "del"    -> HitOpt(e.c, V(e).t)
    [] e.e = "len"    -> Len(Ent(e.c))

\* An operation that panicked (or was impossible) is recorded with a field
\* `failed` and no result; the specification allows no such event.
Allowed(e) ==
  /\ "failed" \notin DOMAIN e
  \* (as a value: TLC would take the disjunctions inside as branches of the step)
  /\ (e.e = "parse" /\ e.how \in UncheckedHow => IsType(e.ty, e.t)) = TRUE
  /\ CASE e.e = "cmp"     -> vals[e.a].ty = vals[e.b].ty /\ CmpOk(vals[e.a].ty, vals[e.a].t, vals[e.b].t, e.r)
       [] e.e = "cmptext" -> IF IsType(V(e).ty, e.t) THEN CmpOk(V(e).ty, V(e).t, e.t, e.r) ELSE e.r = 2
       [] e.e = "hash"    -> \A x \in hs : (x[1] = e.h /\ x[2] = V(e).ty /\ x[3] = FoldText(V(e).t)) => x[4] = e.r
       [] e.e = "sort"    -> SortOk(e)
       \* the larger or smaller of two singletons: one of them, as it is
       [] e.e = "sext"    -> /\ e.r \in {e.a, e.b}
                             /\ \A x \in {e.a, e.b} : IF e.op = "max" THEN Fold(x) <= Fold(e.r) ELSE Fold(e.r) <= Fold(x)
       [] e.e = "shash"   -> \A x \in hs : (x[1] = e.h /\ x[2] = e.how /\ x[3] = FoldText(e.t)) => x[4] = e.r
       [] e.e = "all"     -> /\ Len(e.r) = Len(Ent(e.c))
                             /\ { e.r[i] : i \in 1..Len(e.r) } = { Ent(e.c)[i] : i \in 1..Len(e.r) }
                             /\ cols[e.c].kind \in {"bset", "bmap"} => SortedOk(e.r)
       [] OTHER           -> e.r = Det(e)

(*------------------------------ transitions -------------------------------*)
Step(e) ==
  /\ Allowed(e)
  /\ vals' = CASE e.e = "parse" /\ e.r[1] = 1 -> NewVal(e.ty, e.t, IF e.how \in OwnedHow THEN "buf" ELSE "ref")
               [] e.e = "de" /\ e.r # <<>> -> NewVal(e.ty, e.t, IF e.how \in OwnedHow THEN "buf" ELSE "ref")
               [] e.e = "part" /\ PartType(V(e).ty, e.name) # "Singleton"
                                -> NewVals(PartType(V(e).ty, e.name), e.r, "ref")
               [] e.e \in {"next", "back", "nth", "nthback"} -> NewVals(its[e.i].ty, e.r, "ref")
               [] e.e = "extget" -> NewVals("Extension", e.r, "ref")
               [] e.e = "conv" /\ ConvOp(e.op)[3] \in {"ref", "buf"} -> NewVal(V(e).ty, e.r, ConvOp(e.op)[3])
               [] OTHER -> vals
  /\ its'  = CASE e.e = "iter" -> Append(its, [ty |-> ItemType(V(e).ty), items |-> Items(V(e).ty, V(e).t),
                                               lo |-> 0, hi |-> Len(Items(V(e).ty, V(e).t))])
               [] e.e = "extiter" -> LET g == ExtensionGet(V(e).t, e.b)
                                         xs == IF g = <<>> THEN <<>> ELSE Items("Extension", g[1])
                                     IN Append(its, [ty |-> "ExtensionSubtag", items |-> xs, lo |-> 0, hi |-> Len(xs)])
               [] e.e = "next" /\ e.r # <<>> -> [its EXCEPT ![e.i].lo = @ + 1]
               [] e.e = "back" /\ e.r # <<>> -> [its EXCEPT ![e.i].hi = @ - 1]
               [] e.e = "nth" -> [its EXCEPT ![e.i].lo = Least(@ + e.k + 1, its[e.i].hi)]
               [] e.e = "nthback" -> [its EXCEPT ![e.i].hi = IF @ - e.k - 1 > its[e.i].lo THEN @ - e.k - 1 ELSE its[e.i].lo]
               [] e.e = "rest" -> [its EXCEPT ![e.i].lo = its[e.i].hi]
               [] OTHER -> its
  /\ cols' = CASE e.e = "col" -> Append(cols, [kind |-> e.kind, ty |-> e.ty, ent |-> <<>>])
               [] e.e = "ins" -> LET h == Hit(e.c, V(e).t) IN
                    IF h = {} THEN SetEnt(e.c, Append(Ent(e.c), <<V(e).t, e.x>>))
                    ELSE IF IsMap(e.c) THEN LET i == CHOOSE j \in h : TRUE IN
                           SetEnt(e.c, [Ent(e.c) EXCEPT ![i] = <<@[1], e.x>>])
                    ELSE cols
               [] e.e = "del" -> SetEnt(e.c, Without(e.c, V(e).t))
               [] OTHER -> cols
  /\ hs'   = IF e.e = "hash" THEN hs \cup {<<e.h, V(e).ty, FoldText(V(e).t), e.r>>}
             ELSE IF e.e = "shash" THEN hs \cup {<<e.h, e.how, FoldText(e.t), e.r>>} ELSE hs
  /\ ords' = CASE e.e = "cmp" -> CmpSeen(vals[e.a].ty, vals[e.a].t, vals[e.b].t, e.r)
               [] e.e = "cmptext" /\ e.r # 2 -> CmpSeen(V(e).ty, V(e).t, e.t, e.r)
               [] e.e = "sort" -> SortSeen(e)
               [] OTHER -> ords

(*------------------------------ invariants --------------------------------*)
\* every value in hand is well-formed for its type (C06)
AllWellFormed == \A i \in 1..Len(vals) : IsType(vals[i].ty, vals[i].t)
LastWellFormed == vals # <<>> => IsType(vals[Len(vals)].ty, vals[Len(vals)].t)
\* a collection never holds two equal keys (C13)
NoDuplicateKeys == \A c \in 1..Len(cols) : \A i, j \in 1..Len(Ent(c)) :
                     Same(Ent(c)[i][1], Ent(c)[j][1]) => i = j
\* an iterator never goes past its list (C08)
CursorsOk == \A i \in 1..Len(its) : its[i].lo <= its[i].hi /\ its[i].hi <= Len(its[i].items)
=============================================================================
