-------------------------------- MODULE Remote --------------------------------
(* A program under the remote-profile command (clients come and go) or the        *)
(* live-profile command (one client, the viewer, which ends the command).         *)
(*                                                                               *)
(* The program goes its own way: what it does depends on nobody.  It works on a   *)
(* path of functions, rests, writes errors, and ends somehow.  Meanwhile a server  *)
(* starts the profiler while somebody is connected, and every so often stops it   *)
(* and sends its result to those who are connected and have been greeted.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Client, Path, Status, Live, MaxMoves

VARIABLES
  prog,     \* "running", "ended"
  status,   \* how it ended; "" while it runs
  cur,      \* the path the program works on, or <<>>
  done,     \* the paths it has worked on
  err,      \* how much it has written to its standard error
  conn,     \* clients that are connected
  greeted,  \* clients that know the server and the kind of profiler
  got,      \* client -> the paths in the results it received since it connected
  on,       \* the profiler runs
  since,    \* what the program did since the profiler was started
  latest,   \* what the latest result told
  left,     \* the viewer was left
  passed,   \* what the command passed on: <<status, errors>>
  moves     \* what the environment did, for bounded checking
vars == <<prog, status, cur, done, err, conn, greeted, got, on, since, latest, left, passed, moves>>
program == <<prog, status, cur, done, err>>

Prefixes(p) == {SubSeq(p, 1, n) : n \in 1..Len(p)}
Init == /\ prog = "running" /\ status = "" /\ cur = <<>> /\ done = {} /\ err = 0
        /\ conn = (IF Live THEN Client ELSE {}) /\ greeted = {} /\ got = [c \in Client |-> {}]
        /\ on = FALSE /\ since = {} /\ latest = {} /\ left = FALSE /\ passed = <<>> /\ moves = 0

Moved == moves' = moves + 1 /\ (MaxMoves > 0 => moves < MaxMoves)

(* The program.                                                                   *)
Work(p) == /\ prog = "running" /\ cur' = p /\ done' = done \cup Prefixes(p) /\ Moved
           /\ since' = IF on THEN since \cup Prefixes(p) ELSE since
           /\ UNCHANGED <<prog, status, err, conn, greeted, got, on, latest, left, passed>>
Rest == /\ prog = "running" /\ cur # <<>> /\ cur' = <<>> /\ Moved
        /\ UNCHANGED <<prog, status, done, err, conn, greeted, got, on, since, latest, left, passed>>
Err == /\ prog = "running" /\ err' = err + 1 /\ Moved
       /\ UNCHANGED <<prog, status, cur, done, conn, greeted, got, on, since, latest, left, passed>>
(* With the program its server ends: the clients are lost.                        *)
End(s) == /\ prog = "running" /\ prog' = "ended" /\ status' = s /\ cur' = <<>> /\ on' = FALSE /\ Moved
          /\ conn' = {} /\ greeted' = {} /\ since' = {}
          /\ UNCHANGED <<done, err, got, latest, left, passed>>

(* The clients.                                                                   *)
Connect(c) == /\ ~Live /\ prog = "running" /\ c \notin conn /\ conn' = conn \cup {c} /\ Moved
              /\ got' = [got EXCEPT ![c] = {}]
              /\ UNCHANGED <<program, greeted, on, since, latest, left, passed>>
Leave(c) == /\ ~Live /\ c \in conn /\ conn' = conn \ {c} /\ greeted' = greeted \ {c} /\ Moved
            /\ UNCHANGED <<program, got, on, since, latest, left, passed>>
(* The viewer is closed: the program is ended if it still runs, and what it wrote *)
(* and how it ended is passed on.                                                 *)
Close == /\ Live /\ ~left /\ left' = TRUE /\ Moved
         /\ prog' = "ended" /\ status' = (IF prog = "running" THEN "stopped" ELSE status) /\ cur' = <<>>
         /\ conn' = {} /\ greeted' = {} /\ on' = FALSE /\ since' = {}
         /\ UNCHANGED <<done, err, got, latest, passed>>
Pass == /\ left /\ passed = <<>> /\ passed' = <<status, err>>
        /\ UNCHANGED <<program, conn, greeted, got, on, since, latest, left, moves>>

(* The server.                                                                    *)
Greet(c) == /\ c \in conn \ greeted /\ greeted' = greeted \cup {c}
            /\ got' = [got EXCEPT ![c] = @ \cup latest]
            /\ UNCHANGED <<program, conn, on, since, latest, left, passed, moves>>
Start == /\ prog = "running" /\ ~on /\ conn # {} /\ on' = TRUE
         /\ since' = Prefixes(cur)
         /\ UNCHANGED <<program, conn, greeted, got, latest, left, passed, moves>>
Result == /\ on /\ on' = FALSE /\ since' = {} /\ latest' = since
          /\ got' = [c \in Client |-> IF c \in greeted THEN got[c] \cup since ELSE got[c]]
          /\ UNCHANGED <<program, conn, greeted, left, passed, moves>>

Programs == (\E p \in Path : Work(p)) \/ Rest \/ Err \/ (\E s \in Status : End(s))
Clients == \E c \in Client : Connect(c) \/ Leave(c)
Server == (\E c \in Client : Greet(c)) \/ Start \/ Result
Next == Programs \/ Clients \/ Close \/ Pass \/ Server
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Result) /\ WF_vars(Pass) /\ \A c \in Client : WF_vars(Greet(c))

(* Profiled only while somebody is connected: it is started for somebody, and     *)
(* when nobody is left it does not go on.                                         *)
ForClients == [][~on /\ on' => conn # {}]_on
NobodyLeft == (conn = {} /\ on) ~> (conn # {} \/ ~on)
(* Whoever stays gets results that show what the program does.                    *)
Told == \A c \in Client, p \in Path :
          (c \in conn /\ cur = p) ~> (p \in got[c] \/ c \notin conn \/ cur # p)
(* Nothing is told that the program never did.                                    *)
True_ == \A c \in Client : got[c] \subseteq done
(* Nobody but the program, and the user who closes the viewer, ends the program.  *)
Alone == [][prog' # prog \/ err' # err \/ cur' # cur => \/ Programs \/ Close]_vars
(* Errors and status are passed on.                                               *)
PassedOn == left ~> passed # <<>>
Passed == passed # <<>> => passed = <<status, err>> /\ status # ""
=============================================================================
