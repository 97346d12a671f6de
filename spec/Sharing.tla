------------------------------ MODULE Sharing ------------------------------
(* Several threads of a program use the crate at once.  Texts lie in        *)
(* buffers; a buffer may be written again when nobody looks at it; a thread *)
(* parses the text of a buffer, asks the value things, and drops it.        *)
(* An answer may depend on the text (and the question) only: not on the     *)
(* buffer it lies in, not on what the buffer held before, not on what was   *)
(* asked before, not on what other threads do.                              *)
(*                                                                          *)
(* Impl is how the crate answers:                                           *)
(*   "pure"   from the text (the crate as it is)                            *)
(*   "cache"  keeps the last answer, by buffer and length, and gives it     *)
(*            again when it matches                                         *)
(*   "torn"   the same by text, but the key and the answer are written one  *)
(*            after the other, so that another thread can come between      *)
(*   "sticky" what was asked first of a text of some length is its answer   *)
(* The last three are defects: TLC has to object to each (SharingCache,     *)
(* SharingTorn, SharingSticky).                                             *)
(*                                                                          *)
(* `ev` is the event of the last step.  Module SharingGen draws behaviours, *)
(* which real threads replay (one step at a time, and again with the        *)
(* threads running freely between two writes); SharingTrace checks what     *)
(* they saw.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, Buffers, Texts, Questions, Impl, None, MaxSteps

VARIABLES mem,        \* buffer -> text
          val,        \* thread -> buffer its value borrows from, or None
          pc,         \* thread -> what it is in the middle of
          seen,       \* answers given: <<text, question, answer>>
          cache,      \* what the crate remembers
          steps, ev
vars == <<mem, val, pc, seen, cache, steps, ev>>

\* what is asked of a text, abstractly: different texts, different answers
F(t, q) == <<t, q>>
\* texts come in two lengths
LenOf(t) == t % 2

Idle == [at |-> "idle"]
NoCache == [key |-> None, q |-> None, ans |-> None]

Init == /\ mem \in [Buffers -> Texts]
        /\ val = [t \in Threads |-> None]
        /\ pc = [t \in Threads |-> Idle]
        /\ seen = {} /\ cache = NoCache /\ steps = 0
        /\ ev = [e |-> "start", mem |-> mem]

Free(b) == \A t \in Threads : val[t] # b
Write(b, x) == /\ Free(b) /\ mem[b] # x
               /\ mem' = [mem EXCEPT ![b] = x]
               /\ ev' = [e |-> "write", b |-> b, x |-> x]
               /\ UNCHANGED <<val, pc, seen, cache>>
Parse(t, b) == /\ val[t] = None /\ val' = [val EXCEPT ![t] = b]
               /\ ev' = [e |-> "parse", t |-> t, b |-> b, x |-> mem[b]]
               /\ UNCHANGED <<mem, pc, seen, cache>>
Drop(t) == /\ val[t] # None /\ pc[t] = Idle /\ val' = [val EXCEPT ![t] = None]
           /\ ev' = [e |-> "drop", t |-> t]
           /\ UNCHANGED <<mem, pc, seen, cache>>

Key(t) == CASE Impl = "cache"  -> <<val[t], LenOf(mem[val[t]])>>
            [] Impl = "torn"   -> mem[val[t]]
            [] Impl = "sticky" -> LenOf(mem[val[t]])
            [] OTHER -> None
Answered(t, q, a) == seen' = seen \cup { <<mem[val[t]], q, a>> }

\* a question is asked, and answered at once ...
Ask(t, q) ==
  /\ val[t] # None /\ pc[t] = Idle
  /\ LET x == mem[val[t]]
         hit == cache.key # None /\ cache.key = Key(t) /\ cache.q = q
         a == IF Impl # "pure" /\ hit THEN cache.ans ELSE F(x, q)
     IN IF Impl = "torn" /\ ~hit
        \* ... or the answer is remembered in two steps
        THEN /\ cache' = [cache EXCEPT !.key = x, !.q = q]
             /\ pc' = [pc EXCEPT ![t] = [at |-> "ask", q |-> q, a |-> a]]
             /\ seen' = seen
        ELSE /\ Answered(t, q, a)
             /\ cache' = IF Impl = "pure" \/ (Impl = "sticky" /\ cache.key # None) THEN cache
                         ELSE [key |-> Key(t), q |-> q, ans |-> a]
             /\ pc' = pc
  /\ ev' = [e |-> "ask", t |-> t, q |-> q, x |-> mem[val[t]]]
  /\ UNCHANGED <<mem, val>>
Finish(t) ==
  /\ pc[t] # Idle
  /\ cache' = [cache EXCEPT !.ans = pc[t].a]
  /\ Answered(t, pc[t].q, pc[t].a)
  /\ pc' = [pc EXCEPT ![t] = Idle]
  /\ ev' = [e |-> "finish", t |-> t]
  /\ UNCHANGED <<mem, val>>

Step == \/ \E b \in Buffers, x \in Texts : Write(b, x)
        \/ \E t \in Threads, b \in Buffers : Parse(t, b)
        \/ \E t \in Threads : Drop(t) \/ Finish(t)
        \/ \E t \in Threads, q \in Questions : Ask(t, q)
Next == steps < MaxSteps /\ steps' = steps + 1 /\ Step
Spec == Init /\ [][Next]_vars

\* One answer to one question about one text, for ever.
OnlyTheText == \A s1, s2 \in seen : s1[1] = s2[1] /\ s1[2] = s2[2] => s1[3] = s2[3]
\* ... and the right one
RightAnswer == \A s \in seen : s[3] = F(s[1], s[2])
\* a value in hand keeps its text
Borrowed == \A t \in Threads : val[t] # None => ~Free(val[t])
BorrowKeeps == [][\A t \in Threads : val[t] # None /\ val'[t] = val[t] => mem'[val[t]] = mem[val[t]]]_vars
View == <<mem, val, pc, seen, cache, steps>>
=============================================================================
