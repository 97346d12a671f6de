-------------------------------- MODULE Order --------------------------------
(* The laws of the comparison, for texts of every length: three texts are   *)
(* read side by side, one character of each per step, and what is kept is   *)
(* only how far each pair has been decided.  The state space is finite and  *)
(* explored completely.  Module Compare checks the same comparator against  *)
(* its declarative meaning on short texts.                                  *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS PrefixFirst,   \* does a text come before its extensions?
          Variant        \* "crate", or a defective comparator (refuted)

VARIABLES r,     \* pair -> result so far; 0: no difference yet
          same,  \* pair -> have the folded texts been the same so far?
          end,   \* text -> is it over?
          k      \* characters read, up to 3
vars == <<r, same, end, k>>

Three == {1, 2, 3}
Pairs == { p \in Three \X Three : p[1] # p[2] }
Chr == {45, 48, 57, 65, 66, 90, 97, 98, 122}     \* - 0 9 A B Z a b z
END == 0
Fold(b) == IF b \in 65..90 THEN b + 32 ELSE b
Key(b) == IF Variant = "no-fold" THEN b ELSE Fold(b)
\* the second side's character, as the comparator sees it
Other(b) == IF Variant = "one-side" THEN b ELSE Key(b)
Sign(x, y) == IF x < y THEN 0 - 1 ELSE IF x > y THEN 1 ELSE 0
\* one of the two is over, the other goes on with character c
Shorter(c) == IF Variant = "prefix-by-next" THEN (IF c = 45 THEN 0 - 1 ELSE 1)
              ELSE IF PrefixFirst THEN 0 - 1 ELSE 1
Decide(x, y) ==
  IF x = END /\ y = END THEN 0
  ELSE IF x = END THEN Shorter(y)
  ELSE IF y = END THEN 0 - Shorter(x)
  ELSE IF Variant = "first-three" /\ k = 3 THEN 0
  ELSE Sign(Key(x), Other(y))

Init == /\ r = [p \in Pairs |-> 0] /\ same = [p \in Pairs |-> TRUE]
        /\ end = [t \in Three |-> FALSE] /\ k = 0
Next == \E c \in [Three -> Chr \cup {END}] :
          /\ \A t \in Three : end[t] => c[t] = END
          /\ \E t \in Three : ~end[t]
          /\ end' = [t \in Three |-> c[t] = END]
          /\ k' = IF k < 3 THEN k + 1 ELSE 3
          /\ same' = [p \in Pairs |-> same[p] /\ Fold(c[p[1]]) = Fold(c[p[2]])]
          /\ r' = [p \in Pairs |-> IF r[p] # 0 THEN r[p] ELSE Decide(c[p[1]], c[p[2]])]
Spec == Init /\ [][Next]_vars

\* the answer, once all three are over
Res(p) == r[p]
Over == \A t \in Three : end[t]
Consistent == Over => \A p \in Pairs : Res(p) = 0 <=> same[p]
Antisymmetric == Over => \A p \in Pairs : Res(p) = 0 - Res(<<p[2], p[1]>>)
Transitive == Over => \A a, b, c \in Three :
                (Cardinality({a, b, c}) = 3 /\ Res(<<a, b>>) <= 0 /\ Res(<<b, c>>) <= 0) =>
                  /\ Res(<<a, c>>) <= 0
                  /\ (Res(<<a, c>>) = 0) => (Res(<<a, b>>) = 0 /\ Res(<<b, c>>) = 0)
EqualIsTransitive == Over => \A a, b, c \in Three :
                (Cardinality({a, b, c}) = 3 /\ same[<<a, b>>] /\ same[<<b, c>>]) => same[<<a, c>>]
\* equal values stand in the same relation to any third one (so either may be the key)
Interchangeable == Over => \A a, b, c \in Three :
                (Cardinality({a, b, c}) = 3 /\ same[<<a, b>>]) => Res(<<a, c>>) = Res(<<b, c>>)
\* what is decided stays decided
Decided == [][\A p \in Pairs : r[p] # 0 => r'[p] = r[p]]_vars
=============================================================================
