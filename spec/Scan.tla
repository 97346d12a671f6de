-------------------------------- MODULE Scan --------------------------------
(* How the crate finds the components of a normal tag (src/normal/mod.rs):  *)
(* six scans one after the other, each looking for the end of a list of     *)
(* subtags, each starting one byte after the end the previous one reported. *)
(* One step is one iteration of the loop of `find_list_end`.                *)
(*                                                                          *)
(* Offsets are the code's: 0-based, ends exclusive.  Checked against the    *)
(* declarative sections of module Structure: the scans never read past the  *)
(* end, always finish, and report exactly the sections.                     *)
(*                                                                          *)
(* The constants reintroduce two defects the crate had:                     *)
(*   LastBySlice  : the last subtag was taken as string[offset..], which    *)
(*                  panics when the tag ended before the component          *)
(*   PrivateEarly : the private use part was taken to start after the       *)
(*                  variants                                                *)
EXTENDS Structure, TLC

CONSTANTS MaxSubtags,    \* tags of up to this many subtags
          LastBySlice, PrivateEarly

VARIABLES w,        \* the tag
          sec,      \* section being looked for: 1 language .. 5 extensions, 6 done
          offset,   \* start of the subtag being read
          i,        \* next byte to look at
          end,      \* end of the list so far
          start,    \* where this section's scan began
          from, to, \* sections found: section -> [from, to) ; absent: from = to = end of the previous one
          panic

vars == <<w, sec, offset, i, end, start, from, to, panic>>

Firsts == { Text("ab"), Text("abc"), Text("abcd"), Text("abcde") }
Others == { Text("ab"), Text("abc"), Text("abcd"), Text("0abc"), Text("012"), Text("abcde"), Text("a"), Text("x"), Text("0") }
RECURSIVE Lists(_)
Lists(n) == IF n = 1 THEN { <<p>> : p \in Firsts }
            ELSE LET l == Lists(n - 1) IN l \cup { Append(s, o) : s \in { x \in l : Len(x) = n - 1 }, o \in Others }
Tags == { Join(s) : s \in { x \in Lists(MaxSubtags) : IsNormalList(x) } }

N == Len(w)
Byte0(k) == w[k + 1]                            \* w[k] of the code
Sub(a, b) == SubSeq(w, a + 1, b)                \* w[a..b]

\* the test each scan makes on a subtag starting at `o`
Member(k, o, s) ==
  CASE k = 1 -> o = 0 \/ IsExtlangTag(s)
    [] k = 2 -> o = start /\ IsScript(s)
    [] k = 3 -> o = start /\ IsRegion(s)
    [] k = 4 -> IsVariant(s)
    [] k = 5 -> IsSingleton(s) \/ IsExtSubtag(s)

Init == /\ w \in Tags
        /\ sec = 1 /\ offset = 0 /\ i = 0 /\ end = 0 /\ start = 0
        /\ from = <<>> /\ to = <<>> /\ panic = FALSE

\* the scan of section `sec` reports `e`: the next one starts after it
Report(e) ==
  LET found == e # start \/ sec = 1
      prev  == IF sec = 1 THEN 0 ELSE to[sec - 1]
      last  == IF found THEN e ELSE prev
  IN /\ from' = Append(from, IF found THEN start ELSE prev)
     /\ to' = Append(to, last)
     /\ sec' = sec + 1
     /\ offset' = last + 1 /\ i' = last + 1 /\ end' = last + 1 /\ start' = last + 1

Loop == /\ sec <= 5 /\ ~panic /\ i < N
        /\ IF Byte0(i) = Dash
           THEN IF Member(sec, offset, Sub(offset, i))
                THEN /\ end' = i /\ offset' = i + 1 /\ i' = i + 1
                     /\ UNCHANGED <<sec, start, from, to>>
                ELSE Report(end)
           ELSE i' = i + 1 /\ UNCHANGED <<sec, offset, end, start, from, to>>
        /\ UNCHANGED <<w, panic>>
Finish == /\ sec <= 5 /\ ~panic /\ i >= N
          /\ IF offset > N
             THEN IF LastBySlice THEN panic' = TRUE /\ UNCHANGED <<sec, offset, i, end, start, from, to>>
                  ELSE panic' = FALSE /\ Report(end)
             ELSE /\ panic' = FALSE
                  /\ Report(IF Member(sec, offset, Sub(offset, N)) THEN N ELSE end)
          /\ w' = w
Next == Loop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------ properties --------------------------------*)
NoPanic == ~panic
InBounds == offset <= N + 1 /\ \A k \in 1..Len(to) : from[k] <= to[k] /\ to[k] <= N
Done == sec = 6
Found(k) == Sub(from[k], to[k])
PrivateFrom == IF PrivateEarly THEN to[4] ELSE to[5]
Private == IF PrivateFrom < N THEN << SubSeq(w, PrivateFrom + 2, N) >> ELSE <<>>
Agrees == Done =>
  /\ \A k \in 1..5 : Found(k) = Join(Section(w, k))
  /\ Private = NoneIfEmpty(Section(w, 6))
\* nothing is looked at twice except to start over at a section's first subtag
Progress == [][i' > i \/ sec' > sec \/ panic']_vars
Terminates == <>(Done \/ panic)
=============================================================================
