--------------------------------- MODULE Server --------------------------------
(* A profiling server and its clients.  The server greets each client, profiles   *)
(* in cycles while there are clients and broadcasts each result.  A send may take *)
(* a while in which anything else happens, and may fail.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Client, MaxRes

WELCOME == -2
KIND == -1
NOTHING == 0     \* results are numbered from 1

VARIABLES
  st,        \* client -> "new", "in" (connected) or "gone"
  broken,    \* clients whose connection is broken
  sent,      \* client -> messages that reached it
  greet,     \* client -> the message its greeting sends next, NOTHING if none
  loop,      \* the profiling loop: "off", "begun", "wait" or "send"
  on,        \* the profiler runs
  able,      \* the profiler can be started
  todo,      \* clients that the current result is still to be sent to
  produced   \* number of results so far
vars == <<st, broken, sent, greet, loop, on, able, todo, produced>>

Init == /\ st = [c \in Client |-> "new"] /\ broken = {} /\ sent = [c \in Client |-> <<>>]
        /\ greet = [c \in Client |-> NOTHING] /\ loop = "off" /\ on = FALSE /\ able = TRUE
        /\ todo = {} /\ produced = 0

In == {c \in Client : st[c] = "in"}
Ready == {c \in In : greet[c] = NOTHING}
Last(c) == IF sent[c] = <<>> THEN NOTHING ELSE sent[c][Len(sent[c])]

Connect(c) == /\ st[c] = "new"
              /\ st' = [st EXCEPT ![c] = "in"] /\ greet' = [greet EXCEPT ![c] = WELCOME]
              /\ UNCHANGED <<broken, sent, loop, on, able, todo, produced>>
(* The next message of a greeting: welcome, kind, then the latest result until    *)
(* there is no later one.                                                         *)
Greeting(c) ==
  /\ greet[c] # NOTHING
  /\ IF st[c] = "gone" \/ c \in broken
     THEN /\ st' = [st EXCEPT ![c] = "gone"] /\ greet' = [greet EXCEPT ![c] = NOTHING]
          /\ UNCHANGED <<sent, loop>>
     ELSE LET m == greet[c]
              next == IF m = WELCOME THEN KIND ELSE IF m # produced /\ produced > 0 THEN produced ELSE NOTHING IN
          /\ sent' = [sent EXCEPT ![c] = Append(@, m)]
          /\ greet' = [greet EXCEPT ![c] = next]
          /\ loop' = IF next = NOTHING /\ loop = "off" THEN "begun" ELSE loop
          /\ UNCHANGED st
  /\ UNCHANGED <<broken, on, able, todo, produced>>
(* The profiling loop.  A profiler that cannot be started gives no result.        *)
Resume == /\ (loop = "begun" \/ (loop = "send" /\ todo = {}))
          /\ loop' = (IF In = {} THEN "off" ELSE "wait")
          /\ on' = (In # {} /\ able)
          /\ UNCHANGED <<st, broken, sent, greet, able, todo, produced>>
Cycle == /\ loop = "wait" /\ loop' = "send" /\ on' = FALSE
         /\ produced' = (IF on THEN produced + 1 ELSE produced)
         /\ todo' = (IF on THEN Ready ELSE {})
         /\ UNCHANGED <<st, broken, sent, greet, able>>
Broadcast(c) == /\ loop = "send" /\ c \in todo /\ todo' = todo \ {c}
                /\ IF st[c] = "gone" THEN UNCHANGED <<st, sent>>
                   ELSE IF c \in broken THEN st' = [st EXCEPT ![c] = "gone"] /\ UNCHANGED sent
                   ELSE sent' = [sent EXCEPT ![c] = Append(@, produced)] /\ UNCHANGED st
                /\ UNCHANGED <<broken, greet, loop, on, able, produced>>
(* The environment.                                                               *)
Break(c) == st[c] = "in" /\ broken' = broken \cup {c} /\ UNCHANGED <<st, sent, greet, loop, on, able, todo, produced>>
Leave(c) == /\ st[c] = "in" /\ st' = [st EXCEPT ![c] = "gone"] /\ broken' = broken \cup {c}
            /\ UNCHANGED <<sent, greet, loop, on, able, todo, produced>>
Hinder == able' = ~able /\ UNCHANGED <<st, broken, sent, greet, loop, on, todo, produced>>

Steps == (\E c \in Client : Greeting(c) \/ Broadcast(c)) \/ Resume
Next == (\E c \in Client : Connect(c) \/ Break(c) \/ Leave(c)) \/ Hinder \/ Cycle \/ Steps
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps) /\ WF_vars(Cycle)
Bound == produced <= MaxRes

(* C16 *)
Results(c) == SubSeq(sent[c], 3, Len(sent[c]))
WellFormed == \A c \in Client :
  /\ Len(sent[c]) >= 1 => sent[c][1] = WELCOME
  /\ Len(sent[c]) >= 2 => sent[c][2] = KIND
  /\ \A i \in 1..Len(Results(c)) : Results(c)[i] \in 1..produced
NothingAfterGone == [][\A c \in Client : st[c] = "gone" => sent'[c] = sent[c]]_vars
(* C17 *)
InOrder == \A c \in Client : \A i \in 1..Len(Results(c)) - 1 : Results(c)[i] < Results(c)[i + 1]
UpToDate == \A c \in Ready \ (todo \cup broken) : produced > 0 => Last(c) = produced
NoneMissed == [][\A c \in Ready : Last(c) # sent'[c][Len(sent'[c])] /\ Last(c) > 0 => sent'[c][Len(sent'[c])] = Last(c) + 1]_vars
(* C18 *)
ProfilesInCycles == on => loop = "wait"
OneResultPerCycle == [][produced' # produced => on /\ ~on' /\ produced' = produced + 1]_vars
StartsForClients == [][~on /\ on' => In # {}]_vars
(* C17, C18, C19 as progress: without further events a broken client is dropped    *)
(* and the others are profiled for.                                               *)
EndsUnwatched == (In = {} /\ on) ~> (~on \/ In # {})
Watched == (Ready # {}) ~> (loop = "wait" \/ Ready = {})
=============================================================================
