------------------------------- MODULE Lookup -------------------------------
(* How the crate finds an extension by its singleton (Extensions::get): a   *)
(* scan over the bytes of the list that looks at the first byte of every    *)
(* subtag, one byte per step.  Checked against the declarative lookup of    *)
(* module Structure, for every list and every singleton.                    *)
(*                                                                          *)
(* The constants bring back defects:                                        *)
(*   CaseSensitive : the byte is compared as written (the crate did this)   *)
(*   NoDash        : that the subtag is one byte long is not checked        *)
EXTENDS Structure, TLC

CONSTANTS MaxItems, CaseSensitive, NoDash

VARIABLES items, key,   \* the list of extensions, the singleton looked for
          i, starting,  \* the loop's variables
          res           \* <<>> while looking; <<"none">>; <<"at", from, to>>

vars == <<items, key, i, starting, res>>

Exts == { Text("a-bc"), Text("A-ab-aaa"), Text("b-ab-bb"), Text("0-a1"), Text("T-00-t0") }
Keys == { Text(s)[1] : s \in {"a", "A", "b", "B", "0", "t", "T", "1"} }
Data == Join(items)
N == Len(Data)
Byte0(j) == Data[j + 1]
SameByte(x, y) == IF CaseSensitive THEN x = y ELSE Fold(x) = Fold(y)

\* the end of the subtags of an extension: those longer than one byte
SegEnd(o) == LET D == { j \in o..N - 1 : Byte0(j) = Dash } IN IF D = {} THEN N ELSE CHOOSE j \in D : \A x \in D : j <= x
RECURSIVE ListEnd(_, _)
ListEnd(o, e) == IF o > N THEN e ELSE LET s == SegEnd(o) IN IF s - o > 1 THEN ListEnd(s + 1, s) ELSE e

Init == /\ items \in UNION { [1..n -> Exts] : n \in 0..MaxItems } /\ key \in Keys
        /\ i = 0 /\ starting = TRUE /\ res = <<>>
Hit == starting /\ SameByte(key, Byte0(i)) /\ (NoDash \/ Byte0(i + 1) = Dash)
Step == /\ res = <<>> /\ i + 1 < N
        /\ IF Hit THEN res' = <<"at", i, ListEnd(i + 2, i + 2)>> /\ UNCHANGED <<i, starting>>
           ELSE /\ starting' = (~starting /\ Byte0(i) = Dash)
                /\ i' = i + 1 /\ res' = res
        /\ UNCHANGED <<items, key>>
Stop == /\ res = <<>> /\ i + 1 >= N /\ res' = <<"none">> /\ UNCHANGED <<items, key, i, starting>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the first extension with this singleton, whatever its case
Wanted == LET H == { j \in 1..Len(items) : Fold(items[j][1]) = Fold(key) }
          IN IF H = {} THEN <<>> ELSE << items[CHOOSE j \in H : \A x \in H : j <= x] >>
Found == IF res = <<>> \/ res[1] = "none" THEN <<>> ELSE << SubSeq(Data, res[2] + 1, res[3]) >>
TypeOK == i \in 0..N /\ starting \in BOOLEAN
Right == res # <<>> => Found = Wanted
\* the subtags it yields
SubtagsRight == (res # <<>> /\ Wanted # <<>>) => Tail(Split(Found[1])) = Tail(Split(Wanted[1]))
Ends == <>(res # <<>>)
=============================================================================
