------------------------------ MODULE TraceTimers ------------------------------
(* Validates the readings of the real timers.                                    *)
EXTENDS Timers, TraceBase

VARIABLES seen, gseen   \* the latest reading of a context: <<reading, ran>>, <<>> if none
TInit == TraceStart /\ Init /\ seen = [c \in Ctx |-> <<>>] /\ gseen = [g \in Greenlets |-> <<>>]

(* The operations are those of a behaviour of Timers; where control goes after    *)
(* each is the greenlet library's matter.                                         *)
Do == CASE Ev.op = "tick" -> Tick(Ev.d)
        [] Ev.op = "pause" -> Pause(Ev.c)
        [] Ev.op = "resume" -> Resume(Ev.c)
        [] Ev.op = "spawn" -> Spawn(Ev.g)
        [] Ev.op = "switch" -> Switch(Ev.g)
        [] Ev.op = "finish" -> Finish
        [] Ev.op = "kill" -> Kill(Ev.g)
        [] Ev.op = "start" -> Start
        [] Ev.op = "stop" -> Stop
        [] OTHER -> UNCHANGED vars

Grown(last, reading, time) == last = <<>> \/ reading - last[1] = time - last[2]
See == /\ seen' = IF Ev.op = "read" THEN [seen EXCEPT ![Ev.c] = <<Ev.r, ran[Ev.c]>>] ELSE seen
       /\ gseen' = CASE Ev.op = "gread" -> [gseen EXCEPT ![cur] = <<Ev.r, gran[cur]>>]
                     [] Ev.op = "start" -> [g \in Greenlets |-> <<>>]
                     [] Ev.op \in {"finish", "kill"} -> [g \in Greenlets |-> IF alive'[g] = "" THEN <<>> ELSE gseen[g]]
                     [] OTHER -> gseen
Checks == FirstBad(<<
  Clause({"C13"}, Ev.op \o " failed", Ev.err = ""),
  IF Ev.op = "read" THEN Clause({"C13"}, "reading of a context", Grown(seen[Ev.c], Ev.r, ran[Ev.c]))
  ELSE IF Ev.op = "gread" THEN Clause({"C13"}, "reading in a greenlet", on => Grown(gseen[cur], Ev.r, gran[cur]))
  ELSE "">>)
TNext == More /\ Do /\ See /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, seen, gseen, tr, l, bad>>
=============================================================================
