------------------------------ MODULE TraceServer -----------------------------
(* Validates what the clients of a server received and what its profiler did.    *)
(* The state of Server is followed by what was observed; what has to hold in it  *)
(* is what Server promises.                                                      *)
EXTENDS Server, TraceBase
VARIABLES cut,      \* clients that a send failed for
          closed,   \* client -> how often it was closed
          base,     \* client -> number of the latest result when it connected
          started,  \* the profiler was started and stopped, no result yet
          idle,     \* a cycle passed since the last client was lost
          could     \* the profiler could be started since the cycle began
tvars == <<vars, tr, l, bad, cut, closed, base, started, idle, could>>

Ids == 1..9
TInit == /\ TraceStart /\ cut = {} /\ closed = [c \in Ids |-> 0] /\ base = [c \in Ids |-> 0] /\ started = FALSE /\ idle = FALSE /\ could = TRUE
         /\ st = [c \in Ids |-> "new"] /\ broken = {} /\ sent = [c \in Ids |-> <<>>]
         /\ greet = [c \in Ids |-> NOTHING] /\ loop = "off" /\ on = FALSE /\ able = TRUE /\ todo = {} /\ produced = 0

Live == {c \in Ids : st[c] = "in"}
Op(o) == Ev.op = o
Do ==
  /\ st' = CASE Op("conn") -> [st EXCEPT ![Ev.c] = "in"]
             [] Op("leave") -> [st EXCEPT ![Ev.c] = "gone"]
             [] Op("fail") -> [st EXCEPT ![Ev.c] = "gone"]
             [] OTHER -> st
  /\ broken' = IF Op("break") THEN broken \cup {Ev.c} ELSE broken
  /\ sent' = IF Op("msg") THEN [sent EXCEPT ![Ev.c] = Append(@, Ev.m)] ELSE sent
  /\ cut' = IF Op("fail") THEN cut \cup {Ev.c} ELSE cut
  /\ closed' = IF Op("drop") THEN [closed EXCEPT ![Ev.c] = @ + 1] ELSE closed
  /\ base' = IF Op("conn") THEN [base EXCEPT ![Ev.c] = produced] ELSE base
  /\ on' = IF Op("start") THEN TRUE ELSE IF Op("stop") THEN FALSE ELSE on
  /\ started' = IF Op("stop") THEN TRUE ELSE IF Op("produce") THEN FALSE ELSE started
  /\ produced' = IF Op("produce") THEN produced + 1 ELSE produced
  /\ able' = IF Op("hinder") THEN Ev.able ELSE able
  /\ could' = IF (Op("rest") /\ ~Ev.waits) \/ Op("cycle") THEN able ELSE (could /\ able')
  /\ idle' = ((Op("cycle") \/ idle) /\ \A c \in Ids : st'[c] # "in")
  /\ greet' = CASE Op("conn") -> [greet EXCEPT ![Ev.c] = WELCOME]
               [] Op("msg") -> [greet EXCEPT ![Ev.c] = IF @ # NOTHING /\ (Ev.m = produced \/ (Ev.m = KIND /\ produced = 0)) THEN NOTHING ELSE @]
               [] OTHER -> greet
  /\ UNCHANGED <<loop, todo>>

Msg(c) == sent'[c][Len(sent'[c])]
Prev(c) == sent[c][Len(sent[c])]
Rest(x) == Op("rest") => x
Unbroken == {c \in Live : c \notin broken}
Checks == FirstBad(<<
  (* C16 *)
  IF Op("msg")
  THEN FirstBad(<<
    Clause({"C16"}, "a message after a failed one", Ev.c \notin cut),
    Clause({"C16"}, "a message after the client was closed", closed[Ev.c] = 0),
    Clause({"C16"}, "the client is not welcomed first", Len(sent[Ev.c]) = 0 => Ev.m = WELCOME),
    Clause({"C16"}, "the kind of the profiler does not follow", Len(sent[Ev.c]) = 1 => Ev.m = KIND),
    Clause({"C16"}, "not a result", Len(sent[Ev.c]) > 1 => Ev.m \in 1..produced),
  (* C17 *)
    Clause({"C17"}, "the first result is not the latest", Len(sent[Ev.c]) = 2 => Ev.m >= base[Ev.c]),
    Clause({"C17"}, "results are missed, repeated or out of order", Len(sent[Ev.c]) > 2 => (IF greet[Ev.c] = NOTHING THEN Ev.m = Prev(Ev.c) + 1 ELSE Ev.m > Prev(Ev.c)))>>)
  ELSE "",
  Clause({"C16"}, "a client is left without its greeting", Rest(\A c \in Unbroken : Len(sent[c]) >= 2)),
  Clause({"C16"}, "a message is incomplete", Rest(\A c \in Unbroken : c \notin ToSet(Ev.part))),
  Clause({"C17"}, "a client did not get the latest result", Rest(\A c \in Unbroken : produced > 0 => sent[c] # <<>> /\ Prev(c) = produced)),
  (* C18 *)
  Clause({"C18"}, "profiles for nobody", Op("start") => Live # {}),
  Clause({"C18"}, "a result without profiling", Op("produce") => started /\ ~on),
  Clause({"C18"}, "profiling without a result", Op("start") => ~started),
  Clause({"C18"}, "profiling without a result", Rest(~started)),
  Clause({"C18"}, "does not profile for its clients", Rest(Live # {} => Ev.waits)),
  Clause({"C18"}, "does not profile for its clients", Rest(Live # {} /\ could /\ able => on)),
  Clause({"C18"}, "profiles between the cycles", Rest(on => Ev.waits)),
  Clause({"C18"}, "goes on for nobody", Rest(idle => ~Ev.waits /\ ~on)),
  (* C19 *)
  Clause({"C16", "C17", "C18", "C19"}, "the server fails: " \o (IF Op("crash") THEN Ev.what ELSE ""), ~Op("crash")),
  Clause({"C19"}, "a client is closed twice", Op("drop") => closed[Ev.c] = 0),
  Clause({"C19"}, "a client is closed though nothing happened to it", Op("drop") => Ev.c \notin Live),
  Clause({"C19"}, "a lost client is not closed", Rest(\A c \in Ids : st[c] = "gone" => closed[c] = 1)),
  Clause({"C19"}, "a lost client is kept", Rest(ToSet(Ev.clients) \subseteq Live)),
  Clause({"C19"}, "a client is forgotten", Rest(Live \subseteq ToSet(Ev.clients)))>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
