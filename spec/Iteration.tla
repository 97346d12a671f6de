----------------------------- MODULE Iteration -----------------------------
(* An iterator over a list of N items, with two cursors.  `lo` and `hi`     *)
(* bound what is left; next takes from the front, next_back from the back.  *)
(* Every interleaving of calls is explored, past exhaustion included.       *)
(* At every state the operations Rust derives from these two are specified  *)
(* too: nth, nth_back (which go on from there), and the ones that consume   *)
(* the iterator: what they see is Rest, in order.                           *)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json

CONSTANTS MaxN,      \* longest list
          MaxK,      \* largest argument of nth
          Extra      \* calls made beyond the number of items

VARIABLES n,         \* number of items of this list
          lo, hi,    \* items lo+1..hi are left
          front,     \* items yielded by next, in order
          back,      \* items yielded by next_back, in order
          calls      \* calls made so far

vars == <<n, lo, hi, front, back, calls>>

DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"
Out(x) == IF DUMP THEN PrintT(ToJson(x)) ELSE TRUE

Init == /\ n \in 0..MaxN /\ lo = 0 /\ hi = n
        /\ front = <<>> /\ back = <<>> /\ calls = 0
        /\ Out(<<"IT-I", n, lo, hi>>)

Left == hi - lo
Call == calls < n + Extra /\ calls' = calls + 1 /\ n' = n

\* results: 0 is None, i is the i-th item
NextItem == /\ Call
            /\ IF Left > 0 THEN lo' = lo + 1 /\ front' = Append(front, lo + 1)
                           ELSE lo' = lo /\ front' = front
            /\ hi' = hi /\ back' = back
            /\ Out(<<"IT-E", n, lo, hi, "next", IF Left > 0 THEN lo + 1 ELSE 0, lo', hi'>>)
NextBack == /\ Call
            /\ IF Left > 0 THEN hi' = hi - 1 /\ back' = Append(back, hi)
                           ELSE hi' = hi /\ back' = back
            /\ lo' = lo /\ front' = front
            /\ Out(<<"IT-E", n, lo, hi, "back", IF Left > 0 THEN hi ELSE 0, lo', hi'>>)

Min(a, b) == IF a < b THEN a ELSE b
\* nth(k) drops k items and yields the next one, if there is one
Nth(k) == /\ Call
          /\ LET i == lo + k + 1
             IN /\ lo' = Min(i, hi)
                /\ front' = front \o [j \in 1..(lo' - lo) |-> lo + j]
                /\ hi' = hi /\ back' = back
                /\ Out(<<"IT-N", n, lo, hi, "nth", k, IF i <= hi THEN i ELSE 0, lo', hi'>>)
NthBack(k) == /\ Call
              /\ LET i == hi - k
                 IN /\ hi' = IF i > lo THEN i - 1 ELSE lo
                    /\ back' = back \o [j \in 1..(hi - hi') |-> hi + 1 - j]
                    /\ lo' = lo /\ front' = front
                    /\ Out(<<"IT-N", n, lo, hi, "nth_back", k, IF i > lo THEN i ELSE 0, lo', hi'>>)
\* what a consuming operation (count, last, collect, fold, ...) sees
Rest == [i \in 1..Left |-> lo + i]
Consume == /\ Out(<<"IT-R", n, lo, hi, Left, IF Left > 0 THEN hi ELSE 0, Rest>>)
           /\ UNCHANGED vars

Next == \/ NextItem \/ NextBack
        \/ \E k \in 0..MaxK : Nth(k) \/ NthBack(k)
        \/ Consume
Spec == Init /\ [][Next]_vars /\ WF_vars(NextItem) /\ WF_vars(NextBack)

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

TypeOK == lo \in 0..n /\ hi \in 0..n /\ lo <= hi
\* front, then what is left, then back reversed, is the list
Exact == front \o [i \in 1..Left |-> lo + i] \o Reverse(back) = [i \in 1..n |-> i]
\* with enough calls, all of it is yielded
AllYielded == calls >= n => front \o Reverse(back) = [i \in 1..n |-> i]
\* nth(k) is k + 1 calls of next: the cursor ends where they would
NthIsNext == \A k \in 0..MaxK :
    LET step[j \in 0..k + 1] == IF j = 0 THEN lo ELSE IF step[j - 1] < hi THEN step[j - 1] + 1 ELSE step[j - 1]
    IN Min(lo + k + 1, hi) = step[k + 1]
\* exhaustion is permanent
Fused == [][Left = 0 => lo' = lo /\ hi' = hi]_vars
Exhausts == <>(Left = 0)
=============================================================================
