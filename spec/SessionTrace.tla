---------------------------- MODULE SessionTrace ----------------------------
(* A recorded history of the real code, checked against the session.        *)
(* One event per line; the events of many short sessions follow each other, *)
(* separated by "reset" events.                                             *)
(*                                                                          *)
(* A property's history also holds events other properties speak about      *)
(* (it needs parsed values to compare, for instance): these have judged=0.  *)
(* When the specification does not allow such an event, the rest of that    *)
(* session is skipped (`lost`); a judged event that is not allowed stops    *)
(* the check.                                                               *)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, lost
tvars == <<vals, its, cols, hs, ords, l, lost>>

TraceInit == SessionInit /\ l = 1 /\ lost = FALSE
Reset == /\ vals' = <<>> /\ its' = <<>> /\ cols' = <<>> /\ hs' = {} /\ ords' = {}
         /\ lost' = FALSE
Skip == UNCHANGED svars /\ lost' = TRUE /\ PrintT(<<"TRACE-LOST", l>>)
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF e.e = "reset" THEN Reset
                ELSE IF lost \/ (e.judged = 0 /\ ~Allowed(e)) THEN Skip
                ELSE Step(e) /\ lost' = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  IF n = Len(Trace) THEN PrintT(<<"TRACE-ACCEPTED", n>>)
  ELSE Print(<<"TRACE-REJECTED", n + 1>>, FALSE)
=============================================================================
