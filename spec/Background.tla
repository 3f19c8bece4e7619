------------------------------- MODULE Background ------------------------------
(* A profiler that a background thread starts and stops, while only the main     *)
(* thread can do it: the background thread asks by a signal, the main thread's   *)
(* signal handler acts and wakes the background thread up.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxReq

VARIABLES
  on,        \* the wrapped profiler runs
  req,       \* what is requested: "", "start" or "stop"
  stage,     \* of the request: "idle", "asked", "waiting", "answered"
  pending,   \* the signal is pending
  event,     \* the event is set
  answer,    \* what the main thread has to tell: "none", "ok" or "error"
  result,    \* how the latest request ended: "", "ok", "error" or "refused"
  did,       \* what the main thread did since the request: sequence of "start" and "stop"
  failing,   \* the wrapped profiler will fail next time
  n          \* requests so far
vars == <<on, req, stage, pending, event, answer, result, did, failing, n>>

Init == /\ on = FALSE /\ req = "" /\ stage = "idle" /\ pending = FALSE /\ event = FALSE
        /\ answer = "none" /\ result = "" /\ did = <<>> /\ failing = FALSE /\ n = 0

(* The background thread: refused at once, or the event is cleared, then the      *)
(* signal sent, then waited for the event.                                        *)
Request(op) == /\ stage = "idle" /\ n < MaxReq /\ n' = n + 1 /\ did' = <<>>
               /\ IF (op = "start") = on
                  THEN result' = "refused" /\ UNCHANGED <<req, stage, event, answer>>
                  ELSE req' = op /\ stage' = "asked" /\ event' = FALSE /\ answer' = "none" /\ result' = ""
               /\ UNCHANGED <<on, pending, failing>>
Signal == stage = "asked" /\ stage' = "waiting" /\ pending' = TRUE
          /\ UNCHANGED <<on, req, event, answer, result, did, failing, n>>
Return == /\ stage = "waiting" /\ event
          /\ stage' = "idle" /\ req' = "" /\ result' = answer
          /\ UNCHANGED <<on, pending, event, answer, did, failing, n>>
(* The main thread, between any two of its own steps.  A start that fails leaves  *)
(* the profiler not running; so does a stop.                                      *)
Handle == /\ pending /\ pending' = FALSE
          /\ LET op == IF on THEN "stop" ELSE "start" IN
             /\ did' = Append(did, op)
             /\ on' = (op = "start" /\ ~failing)
          /\ answer' = (IF failing THEN "error" ELSE "ok")
          /\ event' = TRUE /\ failing' = FALSE
          /\ UNCHANGED <<req, stage, result, n>>
Break == stage = "idle" /\ failing' = TRUE /\ UNCHANGED <<on, req, stage, pending, event, answer, result, did, n>>

(* The requests as their caller sees them.                                        *)
Outcome(op) == IF (op = "start") = on THEN "refused" ELSE IF failing THEN "error" ELSE "ok"
Whole(op) == /\ n' = n + 1
             /\ result' = Outcome(op)
             /\ did' = IF Outcome(op) = "refused" THEN <<>> ELSE <<op>>
             /\ on' = (IF Outcome(op) = "refused" THEN on ELSE op = "start" /\ ~failing)
             /\ failing' = (Outcome(op) = "refused" /\ failing)
             /\ UNCHANGED <<req, stage, pending, event, answer>>

Next == (\E op \in {"start", "stop"} : Request(op)) \/ Signal \/ Return \/ Handle \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(Signal) /\ WF_vars(Return) /\ WF_vars(Handle)

TypeOK == stage \in {"idle", "asked", "waiting"} /\ did \in {<<>>, <<"start">>, <<"stop">>}
(* A request returns after the main thread has done exactly what was asked for.   *)
TakesEffect == [][stage = "waiting" /\ stage' = "idle" =>
                    did = <<req>> /\ (result' = "ok" => on = (req = "start")) /\ ~pending]_vars
(* Refused requests ask nobody.                                                   *)
RefusedAsksNobody == result = "refused" => did = <<>>
(* Every request returns.                                                         *)
Returns == stage # "idle" ~> stage = "idle"
=============================================================================
