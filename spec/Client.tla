--------------------------------- MODULE Client --------------------------------
(* A fail-over client behind an event loop.  Attempts to connect are made by      *)
(* timers; the result of one may be known at once or be told by the event loop.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Families, Delay, MaxMsg   \* of "unix", "tcp" and "given" (no fail-over); fail-over delay

VARIABLES
  family,
  net,      \* the server's address: "missing" (no socket file), "refusing", "failing"
            \* (any attempt, at once) or "up"
  phase,    \* of the client: "timer" (an attempt is to come), "refused" (told soon),
            \* "waiting" (connected, not accepted yet), "open" or "over"
  delay,    \* of the timer
  active,   \* the viewer is active
  kind,     \* profiler it shows: 0 none
  shown,    \* result it shows: 0 none
  lost,     \* the connection ended, told soon
  inbox,    \* messages that are under way
  count     \* results sent
vars == <<family, net, phase, delay, active, kind, shown, lost, inbox, count>>

Nets == {"refusing", "failing", "up"} \cup IF family = "unix" THEN {"missing"} ELSE {}
Init == /\ family \in Families /\ net \in Nets /\ phase = (IF family = "given" THEN "open" ELSE "timer") /\ delay = 0 /\ active = FALSE /\ kind = 0 /\ shown = 0
        /\ lost = FALSE /\ inbox = <<>> /\ count = 0

(* The client.                                                                    *)
Retry(d) == phase' = "timer" /\ delay' = d
Attempt == /\ phase = "timer"
           /\ CASE net = "up" -> phase' = "waiting" /\ UNCHANGED delay
                [] net = "failing" \/ (net # "up" /\ family = "unix") -> Retry(Delay)
                [] OTHER -> phase' = "refused" /\ UNCHANGED delay
           /\ UNCHANGED <<family, net, active, kind, shown, lost, inbox, count>>
Told == /\ phase = "refused" /\ Retry(Delay) /\ active' = FALSE
        /\ UNCHANGED <<family, net, kind, shown, lost, inbox, count>>
(* The next message or, after all of them, the end of the connection.             *)
WELCOME == -2
Kinds == {-11, -12}   \* tracing, sampling
View == [active |-> active, kind |-> kind, shown |-> shown]
Given(v, m) == [active |-> v.active \/ m = WELCOME,
                kind |-> IF m \in Kinds THEN m ELSE v.kind,
                shown |-> IF m > 0 THEN m ELSE v.shown]
Show(v) == active' = v.active /\ kind' = v.kind /\ shown' = v.shown
Message == /\ phase = "open" /\ inbox # <<>> /\ inbox' = Tail(inbox)
           /\ Show(Given(View, Head(inbox)))
           /\ UNCHANGED <<family, net, phase, delay, lost, count>>
Ended == /\ phase \in {"waiting", "open"} /\ lost /\ inbox = <<>>
         /\ IF family = "given" THEN phase' = "over" /\ UNCHANGED delay ELSE Retry(0)
         /\ lost' = FALSE /\ active' = FALSE
         /\ UNCHANGED <<family, net, kind, shown, inbox, count>>

(* The event loop tells everything there is to tell.                              *)
Settle == IF phase = "refused" THEN Told
          ELSE LET v == IF phase = "open" THEN FoldLeft(Given, View, inbox) ELSE View
                   end == lost /\ phase \in {"waiting", "open"} IN
               /\ inbox' = <<>> /\ lost' = FALSE /\ Show([v EXCEPT !.active = v.active /\ ~end])
               /\ IF ~end THEN UNCHANGED <<phase, delay>>
                  ELSE IF family = "given" THEN phase' = "over" /\ UNCHANGED delay ELSE Retry(0)
               /\ UNCHANGED <<family, net, count>>

(* The environment.                                                               *)
Become(n) == /\ n \in Nets \ {net} /\ net' = n
             /\ lost' = (lost \/ phase = "waiting")  \* not accepted any more
             /\ UNCHANGED <<family, phase, delay, active, kind, shown, inbox, count>>
Accept == /\ net = "up" /\ phase = "waiting" /\ ~lost /\ phase' = "open"
          /\ UNCHANGED <<family, net, delay, active, kind, shown, lost, inbox, count>>
Send(m) == /\ phase = "open" /\ ~lost /\ inbox' = Append(inbox, m) /\ count' = (IF m > 0 THEN count + 1 ELSE count)
           /\ UNCHANGED <<family, net, phase, delay, active, kind, shown, lost>>
(* The connection ends, perhaps within a message.                                 *)
Lose == /\ phase = "open" /\ ~lost /\ lost' = TRUE
        /\ UNCHANGED <<family, net, phase, delay, active, kind, shown, inbox, count>>

Client == Attempt \/ Told \/ Message \/ Ended
Next == \/ Client \/ Settle \/ (\E n \in Nets : Become(n)) \/ Accept \/ Lose
        \/ (\E m \in {WELCOME, count + 1} \cup Kinds : Send(m))
Spec == Init /\ [][Next]_vars /\ WF_vars(Client) /\ WF_vars(Accept)
Bound == count <= MaxMsg /\ Len(inbox) <= 2

Phases == {"timer", "refused", "waiting", "open"}
NeverGivesUp == /\ phase \in IF family = "given" THEN {"open", "over"} ELSE Phases
                /\ phase \notin {"waiting", "open"} => inbox = <<>> /\ ~lost
ActiveWhileOpen == active => phase = "open"
KeepsShown == [][shown' # shown => shown' > shown /\ shown' <= count]_vars
DelaysWhenRefused == [][(phase # "timer" /\ phase' = "timer" => delay' = (IF phase = "refused" THEN Delay ELSE 0))
                        /\ (Attempt /\ phase' = "timer" => delay' = Delay)]_vars
Reconnects == ([]<>(net # "up")) \/ ([]<>lost) \/ <>[](phase \in {"open", "over"})
=============================================================================
