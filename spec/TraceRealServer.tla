---------------------------- MODULE TraceRealServer ---------------------------
(* Validates what the clients of real servers received, what was left at the end *)
(* and what the profiler did meanwhile.                                          *)
EXTENDS Server, TraceBase
VARIABLE base, healthy
tvars == <<vars, tr, l, bad, base, healthy>>

Ids == 1..99
TInit == /\ TraceStart /\ base = [c \in Ids |-> 0] /\ healthy = {}
         /\ st = [c \in Ids |-> "new"] /\ broken = {} /\ sent = [c \in Ids |-> <<>>]
         /\ greet = [c \in Ids |-> NOTHING] /\ loop = "off" /\ on = FALSE /\ able = TRUE /\ todo = {} /\ produced = 0
Do == /\ IF Ev.op = "client"
         THEN /\ sent' = [sent EXCEPT ![Ev.c] = Ev.msgs] /\ base' = [base EXCEPT ![Ev.c] = Ev.base]
              /\ healthy' = IF Ev.healthy THEN healthy \cup {Ev.c} ELSE healthy
         ELSE UNCHANGED <<sent, base, healthy>>
      /\ UNCHANGED <<st, broken, greet, loop, on, able, todo, produced>>

(* Results produced while a client is being greeted may be left out: this takes   *)
(* a while for a large result if the server does not wait (Ev.slow).              *)
M == Ev.msgs
R == SubSeq(M, 3, Len(M))
Client_ == Ev.op = "client" 
End == Ev.op = "end"
START == 1
STOP == 2
PRODUCE == 3
E == Ev.events
Cycles(n) == \A i \in 1..Len(E) : E[i] = <<START, STOP, PRODUCE>>[((i - 1) % 3) + 1]
Checks == FirstBad(<<
  IF Client_
  THEN FirstBad(<<
    Clause({"C16"}, "the client is not welcomed first", Len(M) >= 1 => M[1] = WELCOME),
    Clause({"C16"}, "the kind of the profiler does not follow", Len(M) >= 2 => M[2] = KIND),
    Clause({"C16"}, "not a result", \A i \in 1..Len(R) : R[i] >= 1),
    Clause({"C17"}, "the first result is not the latest", Len(R) >= 1 => R[1] >= Ev.base),
    Clause({"C17"}, "results are repeated or out of order", \A i \in 1..Len(R) - 1 : R[i] < R[i + 1]),
    Clause({"C17"}, "results are missed", ~Ev.slow => \A i \in 1..Len(R) - 1 : R[i + 1] = R[i] + 1),
    Clause({"C17"}, "a client did not get the results", Ev.healthy /\ Ev.end = "open" => Len(M) > 0 /\ M[Len(M)] >= Ev.upto),
    Clause({"C17", "C19"}, "a client is dropped though nothing happened to it", Ev.healthy => Ev.end = "open")>>)
  ELSE FirstBad(<<
    Clause({"C16", "C17", "C18", "C19"}, "the server fails: " \o Ev.crash, Ev.crash = ""),
    Clause({"C19"}, "a new client is not served", Ev.served),
    Clause({"C19"}, "lost clients are kept", Ev.kept = 0),
    Clause({"C18"}, "goes on for nobody", ~Ev.on),
    Clause({"C18"}, "a result without profiling or profiling without a result", Cycles(0))>>)>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
