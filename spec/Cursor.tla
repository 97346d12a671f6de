------------------------------- MODULE Cursor -------------------------------
(* How the crate iterates: over the bytes of a list, with two byte offsets. *)
(*                                                                          *)
(*   list       (variants, extended language subtags): items are what is    *)
(*              between hyphens; next scans forward from `offset`           *)
(*              (find_segment_end), next_back backward from `end`           *)
(*              (find_segment_start)                                        *)
(*   tagged     (the subtags of one extension, of a private use part): the  *)
(*              same, starting after the two bytes of the singleton or 'x'; *)
(*              forward only                                                *)
(*   extensions (a list of extensions): an item is a singleton and the      *)
(*              longest run of longer subtags after it; forward only        *)
(*                                                                          *)
(* Checked to refine Iteration, in which items are numbered and cursors     *)
(* count items, under the mapping of offsets to items given below.          *)
EXTENDS Structure, TLC

CONSTANTS Kinds, Sizes,  \* kinds of list and number of items explored
          Extra,
          Saturate       \* TRUE: the code's `if start > 0 { start - 1 } else { 0 }`

VARIABLES kind, items,   \* the list
          offset, end,   \* 0-based byte offsets
          front, back,   \* items handed out, as [from, to) ranges
          calls, wrap    \* wrap: an offset went below zero

vars == <<kind, items, offset, end, front, back, calls, wrap>>

Subtags == { Text("abcde"), Text("1abc") }
ExtItems == { Text("a-bc"), Text("a-bc-def"), Text("B-1x-yyyyyyyy-zz") }
PuItems == { Text("a"), Text("x"), Text("bcd") }
ItemsOf(k) == IF k = "list" THEN Subtags ELSE IF k = "tagged" THEN PuItems ELSE ExtItems
Lists(k) == UNION { [1..n -> ItemsOf(k)] : n \in Sizes }
Head0 == IF kind = "tagged" THEN <<120, Dash>> ELSE <<>>
Data == Head0 \o Join(items)
N == Len(Data)
Byte0(j) == Data[j + 1]
Least(S) == CHOOSE j \in S : \A x \in S : j <= x
Most(S) == CHOOSE j \in S : \A x \in S : j >= x

\* find_segment_end, find_segment_start, and the scan of one extension
SegEnd(o) == LET D == { j \in o..N - 1 : Byte0(j) = Dash } IN IF D = {} THEN N ELSE Least(D)
SegStart(e) == LET D == { j \in 0..e - 1 : Byte0(j) = Dash } IN IF D = {} THEN 0 ELSE Most(D) + 1
RECURSIVE ExtEnd(_, _)
ExtEnd(o, e) == IF o > N THEN e
                ELSE LET s == SegEnd(o)
                     IN IF IsExtSubtag(SubSeq(Data, o + 1, s)) THEN ExtEnd(s + 1, s) ELSE e
ItemEnd(o) == IF kind = "extensions" THEN ExtEnd(o + 2, o + 2) ELSE SegEnd(o)

Init == /\ kind \in Kinds /\ items \in Lists(kind)
        /\ offset = (IF kind = "tagged" THEN 2 ELSE 0) /\ end = N
        /\ front = <<>> /\ back = <<>> /\ calls = 0 /\ wrap = FALSE
Call == calls < Len(items) + Extra /\ calls' = calls + 1 /\ UNCHANGED <<kind, items>>
NextItem == /\ Call
            /\ IF offset < end
               THEN /\ front' = Append(front, <<offset, ItemEnd(offset)>>)
                    /\ offset' = ItemEnd(offset) + 1
               ELSE UNCHANGED <<front, offset>>
            /\ UNCHANGED <<end, back, wrap>>
NextBack == /\ Call /\ kind = "list"
            /\ IF end > offset
               THEN LET s == SegStart(end)
                    IN /\ back' = Append(back, <<s, end>>)
                       /\ end' = IF s > 0 THEN s - 1 ELSE 0
                       /\ wrap' = (wrap \/ (s = 0 /\ ~Saturate))
               ELSE UNCHANGED <<end, back, wrap>>
            /\ UNCHANGED <<front, offset>>
Next == NextItem \/ NextBack
Spec == Init /\ [][Next]_vars

(*--------------------------- refinement -----------------------------------*)
RECURSIVE StartOf(_)
StartOf(j) == IF j = 1 THEN Len(Head0) ELSE StartOf(j - 1) + Len(items[j - 1]) + 1
EndOf(j) == StartOf(j) + Len(items[j])
Number(r) == IF \E j \in 1..Len(items) : r = <<StartOf(j), EndOf(j)>>
             THEN CHOOSE j \in 1..Len(items) : r = <<StartOf(j), EndOf(j)>> ELSE 0
Numbers(s) == [j \in 1..Len(s) |-> Number(s[j])]
Lo == Cardinality({ j \in 1..Len(items) : StartOf(j) < offset })
Hi == IF offset >= end THEN Lo ELSE Cardinality({ j \in 1..Len(items) : StartOf(j) < end })
A == INSTANCE Iteration WITH n <- Len(items), lo <- Lo, hi <- Hi,
       front <- Numbers(front), back <- Numbers(back), MaxN <- 9, MaxK <- 0
Refines == A!Init /\ [][A!NextItem \/ A!NextBack]_(A!vars)

NoWrap == ~wrap
\* offsets land on the start of an item, or past the last one
OnItem == /\ offset \in { StartOf(j) : j \in 1..Len(items) } \cup {Len(Head0), N + 1}
          /\ end \in { EndOf(j) : j \in 1..Len(items) } \cup {0, N}
AExact == A!Exact
=============================================================================
