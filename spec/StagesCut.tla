----------------------------- MODULE StagesCut ------------------------------
(* The one-pass machine beside the declarative formulation of module        *)
(* Structure, on lists of subtags of every shape: it accepts the same       *)
(* lists and cuts them in the same places.  With module Stages (the same    *)
(* machine beside the ABNF, all lengths) this ties the two formulations of  *)
(* the RFC together by a third.                                             *)
EXTENDS Structure, StageMachine, TLC

CONSTANTS Shapes,       \* representative subtags
          MaxSubtags

VARIABLES ss, st, gr, secs
vars == <<ss, st, gr, secs>>

RECURSIVE Summary(_, _)
Summary(u, t) == IF t = <<>> THEN u ELSE Summary(Add(u, Sym(Head(t))), Tail(t))
Of(t) == Summary(Nothing, t)

AllShapes == { Text("a"), Text("x"), Text("X"), Text("1"), Text("ab"), Text("a1"), Text("abc"), Text("123"), Text("1ab"),
               Text("abcd"), Text("1abc"), Text("ab12"), Text("abcde"), Text("12345678"), Text("ABCDEFGH"), Text("abcdefghi") }
FewShapes == { Text("a"), Text("x"), Text("ab"), Text("abc"), Text("123"), Text("abcd"), Text("1abc"), Text("abcde") }

Init == ss = <<>> /\ st = <<"start", 0>> /\ gr = "start" /\ secs = <<>>
Next == /\ Len(ss) < MaxSubtags /\ st # Dead
        /\ \E t \in Shapes :
             /\ ss' = Append(ss, t)
             /\ st' = After(st, Of(t))
             /\ gr' = Take(gr, Of(t))
             /\ secs' = Append(secs, gr')
Spec == Init /\ [][Next]_vars

Names == <<"language", "script", "region", "variant", "extension", "privateuse">>
SameList == ss # <<>> => (IsNormalList(ss) <=> May(st))
SameCut  == (ss # <<>> /\ IsNormalList(ss)) =>
              /\ CutOf(ss) = [k \in 1..6 |-> Cardinality({ i \in 1..Len(secs) : secs[i] = Names[k] })]
              /\ \A i, j \in 1..Len(secs) : i < j =>
                   (CHOOSE k \in 1..6 : Names[k] = secs[i]) <= (CHOOSE k \in 1..6 : Names[k] = secs[j])
=============================================================================
