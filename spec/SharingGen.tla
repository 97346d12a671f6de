----------------------------- MODULE SharingGen -----------------------------
(* Draws behaviours of Sharing (TLC in simulation mode): schedules for real *)
(* threads.  Which kind of step comes next is drawn first, so that writes   *)
(* and questions are about equally frequent.                                *)
EXTENDS Sharing, Json

Some(S) == IF S = {} THEN {} ELSE { RandomElement(S) }
Held == { t \in Threads : val[t] # None }
FreeB == { b \in Buffers : Free(b) }
Can(k) == CASE k = "write" -> FreeB # {} [] k = "parse" -> Held # Threads [] OTHER -> Held # {}
Draw(k) ==
  CASE k = "write" -> \E b \in Some(FreeB) : \E x \in Some(Texts \ {mem[b]}) : Write(b, x)
    [] k = "parse" -> \E t \in Some(Threads \ Held), b \in Some(Buffers) : Parse(t, b)
    [] k = "drop"  -> \E t \in Some(Held) : Drop(t)
    [] OTHER       -> \E t \in Some(Held), q \in Some(Questions) : Ask(t, q)
GenNext == /\ steps < MaxSteps /\ steps' = steps + 1
           /\ \E k \in Some({ x \in {"write", "parse", "drop", "ask", "ask2", "ask3"} : Can(x) }) : Draw(k)
           /\ PrintT(ToJson(<<"SH", steps', ev', IF steps = 0 THEN mem ELSE <<>> >>))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
