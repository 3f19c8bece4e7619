------------------------------ MODULE TraceClient -----------------------------
(* Validates what a client did and what its viewer showed.                        *)
EXTENDS Client, TraceBase

TInit == /\ TraceStart /\ family = Traces[tr][1].family /\ net = Traces[tr][1].net
         /\ phase = (IF family = "given" THEN "open" ELSE "timer") /\ delay = 0 /\ active = FALSE
         /\ kind = 0 /\ shown = 0 /\ lost = FALSE /\ inbox = <<>> /\ count = 0
Is(o) == Ev.op = o
Do == CASE Is("fire") -> Attempt
        [] Is("settle") -> Settle
        [] Is("become") -> Become(Ev.net)
        [] Is("accept") -> Accept
        [] Is("lose") -> Lose
        [] Is("send") -> Send(Ev.m)
        [] OTHER -> UNCHANGED vars
Head_(k) == CASE k = 0 -> "base" [] k = -11 -> "tracing" [] OTHER -> "sampling"
(* What the user sees, unless something is still to be told.                      *)
Quiet == phase' # "refused" /\ ~lost' /\ inbox' = <<>>
Attempting == Is("init") \/ Is("fire") \/ Is("settle")
Checks == FirstBad(<<
  Clause({"C20"}, "the client crashes: " \o Ev.crash, Ev.crash = ""),
  Clause({"C20"}, "gives up", phase' = "timer" => Ev.timers # <<>>),
  Clause({"C20"}, "two attempts at a time", Len(Ev.timers) <= 1),
  Clause({"C20"}, "attempts while connected", phase' # "timer" => Ev.timers = <<>>),
  Clause({"C20"}, "tries again at the wrong time", Attempting /\ phase' = "timer" => Ev.timers = <<delay'>>),
  Clause({"C20"}, "holds several sockets", Ev.sockets <= 1),
  Clause({"C20"}, "watches several sockets", Ev.watched <= 1),
  Clause({"C20"}, "does not watch its socket", phase' \in {"waiting", "open"} => Ev.watched = 1),
  Clause({"C20"}, "watches a socket it gave up", phase' \in {"timer", "over"} => Ev.watched = 0),
  Clause({"C20"}, "not connected", Ev.op = "accept" => Ev.accepted),
  Clause({"C20"}, "does not tell whether it is connected", Quiet => Ev.state = (IF active' THEN "normal" ELSE "inactive")),
  Clause({"C20"}, "another kind of table", Quiet => Ev.head = Head_(kind')),
  Clause({"C20"}, "another result", Quiet => Ev.shown[1] <= shown' * 1000 /\ shown' * 1000 <= Ev.shown[2]),
  Clause({"C20"}, "another title", Quiet /\ shown' > 0 => Ev.title),
  Clause({"C20"}, "another tree", Quiet => Ev.row = shown')>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
