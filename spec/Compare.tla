------------------------------ MODULE Compare ------------------------------
(* Equality, ordering and hashing of texts, as a machine that reads two     *)
(* texts in lock step.  `verdict` is "tie" until the folded characters      *)
(* differ.  Where one text is a proper prefix of the other the order is a   *)
(* convention (CONSTANT PrefixFirst); the laws hold under either.           *)
EXTENDS Integers, Sequences, FiniteSets, Chars, TLC, IOUtils, Json

CONSTANTS PrefixFirst, Alphabet, MaxLen

VARIABLES s, t, u,   \* three texts, growing together or ending early
          vst, vtu, vsu   \* verdicts of the lock-step machine on each pair

vars == <<s, t, u, vst, vtu, vsu>>
DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"
Out(x) == IF DUMP THEN PrintT(ToJson(x)) ELSE TRUE

\* one step of the lock-step machine; "end" stands for a finished text
END == 0
StepOf(v, a, b) ==
  IF v # "tie" THEN v
  ELSE IF a = END /\ b = END THEN "tie"
  ELSE IF a = END THEN (IF PrefixFirst THEN "lt" ELSE "gt")
  ELSE IF b = END THEN (IF PrefixFirst THEN "gt" ELSE "lt")
  ELSE IF Fold(a) = Fold(b) THEN "tie"
  ELSE IF Fold(a) < Fold(b) THEN "lt" ELSE "gt"

\* the machine's table on all characters texts are made of
TextByte == (48..57) \cup (65..90) \cup (97..122) \cup {Dash}
ASSUME \A a \in TextByte, b \in TextByte : Out(<<"CMP", a, b, StepOf("tie", a, b)>>)

AtEnd(x, k) == Len(x) < k                    \* x had ended before step k
Init == s = <<>> /\ t = <<>> /\ u = <<>> /\ vst = "tie" /\ vtu = "tie" /\ vsu = "tie"
Depth == IF Len(s) >= Len(t) /\ Len(s) >= Len(u) THEN Len(s)
         ELSE IF Len(t) >= Len(u) THEN Len(t) ELSE Len(u)
Push(x, a) == IF a = END THEN x ELSE Append(x, a)
Read(a, b, c) ==
  /\ Depth < MaxLen
  /\ {a, b, c} # {END}
  /\ (Len(s) < Depth => a = END) /\ (Len(t) < Depth => b = END) /\ (Len(u) < Depth => c = END)
  /\ s' = Push(s, a) /\ t' = Push(t, b) /\ u' = Push(u, c)
  /\ vst' = StepOf(vst, a, b) /\ vtu' = StepOf(vtu, b, c) /\ vsu' = StepOf(vsu, a, c)
Next == \E a, b, c \in Alphabet \cup {END} : Read(a, b, c)
Spec == Init /\ [][Next]_vars

\* The machine computes folded equality ...
EqIsFold == (vst = "tie") <=> (FoldText(s) = FoldText(t))
\* ... a total order consistent with it ...
Flip(v) == IF v = "lt" THEN "gt" ELSE IF v = "gt" THEN "lt" ELSE "tie"
RECURSIVE RunPair(_, _, _, _)
RunPair(x, y, k, v) ==
  IF k > Len(x) /\ k > Len(y) THEN v
  ELSE RunPair(x, y, k + 1, StepOf(v, IF k > Len(x) THEN END ELSE x[k], IF k > Len(y) THEN END ELSE y[k]))
Verdict(x, y) == RunPair(x, y, 1, "tie")
Lockstep == vst = Verdict(s, t)
Antisymmetric == Verdict(t, s) = Flip(vst)
Transitive == /\ (vst = "lt" /\ vtu = "lt") => vsu = "lt"
              /\ (vst = "tie" => vsu = vtu)
              /\ (vtu = "tie" => vsu = vst)
\* ... that depends on the first difference only
FirstDiffDecides ==
  LET m == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
      ds == { i \in 1..m : Fold(s[i]) # Fold(t[i]) }
  IN ds # {} => LET d == CHOOSE i \in ds : \A j \in ds : i <= j
                IN vst = (IF Fold(s[d]) < Fold(t[d]) THEN "lt" ELSE "gt")
Letters5 == {65, 97, 90, 48, 45}
Letters3 == {65, 97, 66}
=============================================================================
