---------------------------- MODULE SharingTrace ----------------------------
(* What real threads did and saw, checked against Sharing: each step is one *)
(* the specification has, and an answer is the one that was given to the    *)
(* same question about the same text before - whoever asked, whenever, and  *)
(* wherever the text was.                                                   *)
(* Texts, questions and answers are numbers; the behaviours follow each     *)
(* other, separated by "reset" events, and `said` is kept for all of them   *)
(* (and has what a process said that was asked about one text only).        *)
EXTENDS Sharing, Sequences, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, said
tvars == <<vars, l, said>>

TraceInit == /\ mem = [b \in Buffers |-> 0] /\ val = [t \in Threads |-> None]
             /\ pc = [t \in Threads |-> Idle] /\ seen = {} /\ cache = NoCache
             /\ steps = 0 /\ ev = [e |-> "start", mem |-> mem]
             /\ l = 1 /\ said = [k \in {} |-> 0]
Reset(e) == /\ mem' = [b \in Buffers |-> e.mem[b]] /\ val' = [t \in Threads |-> None]
            /\ UNCHANGED <<pc, seen, cache, steps, said>> /\ ev' = e
\* the same text again (two texts of a behaviour may turn out to be one)
Rewrite(e) == Free(e.b) /\ mem[e.b] = e.x /\ ev' = e /\ UNCHANGED <<mem, val, pc, seen, cache>>
Answer(x, q, a) == LET k == <<x, q>> IN
  IF k \in DOMAIN said THEN said[k] = a /\ said' = said ELSE said' = (k :> a) @@ said
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.e = "reset" -> Reset(e)
       [] e.e = "write" -> (Write(e.b, e.x) \/ Rewrite(e)) /\ UNCHANGED <<steps, said>>
       [] e.e = "parse" -> Parse(e.t, e.b) /\ mem[e.b] = e.x /\ UNCHANGED <<steps, said>>
       [] e.e = "drop"  -> Drop(e.t) /\ UNCHANGED <<steps, said>>
       [] e.e = "ask"   -> /\ val[e.t] # None /\ mem[val[e.t]] = e.x
                           /\ Answer(e.x, e.q, e.a)
                           /\ ev' = e /\ UNCHANGED <<mem, val, pc, seen, cache, steps>>
       \* a process that did nothing else
       [] e.e = "alone" -> /\ Answer(e.x, e.q, e.a)
                           /\ ev' = e /\ UNCHANGED <<mem, val, pc, seen, cache, steps>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  IF n = Len(Trace) THEN PrintT(<<"TRACE-ACCEPTED", n>>)
  ELSE Print(<<"TRACE-REJECTED", n + 1>>, FALSE)
=============================================================================
