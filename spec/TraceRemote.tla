----------------------------- MODULE TraceRemote -----------------------------
(* Validates what real programs and clients under the commands saw.               *)
EXTENDS Remote, TraceBase

(* How often each path was worked on, as the program counted.                     *)
VARIABLE count
tvars == <<vars, count>>

IsLive == Traces[tr][1].live
TInit == /\ TraceStart
         /\ prog = "running" /\ status = "" /\ cur = <<>> /\ done = {} /\ err = 0
         /\ conn = (IF IsLive THEN {1} ELSE {}) /\ greeted = {} /\ got = [c \in Client |-> {}]
         /\ on = FALSE /\ since = {} /\ latest = {} /\ left = FALSE /\ passed = <<>> /\ moves = 0
         /\ count = <<>>

(* Connect, Leave and Close here as in Remote, whose constant Live is not known.  *)
Enter(c) == IF c \in conn \/ prog = "ended" THEN UNCHANGED vars
            ELSE /\ conn' = conn \cup {c} /\ got' = [got EXCEPT ![c] = {}]
                 /\ UNCHANGED <<program, greeted, on, since, latest, left, passed, moves>>
Go(c) == conn' = conn \ {c} /\ UNCHANGED <<program, greeted, got, on, since, latest, left, passed, moves>>
Shut == /\ left' = TRUE /\ prog' = "ended" /\ status' = (IF prog = "running" THEN "stopped" ELSE status)
        /\ cur' = <<>> /\ conn' = {} /\ passed' = <<Ev.status, Ev.errs>>
        /\ UNCHANGED <<done, err, greeted, got, on, since, latest, moves>>
Do == CASE Ev.op = "work" /\ prog = "running" -> Work(Ev.arg)
        [] Ev.op = "rest" /\ cur # <<>> -> Rest
        [] Ev.op = "err" /\ prog = "running" -> Err
        [] Ev.op = "connect" -> Enter(Ev.arg)
        [] Ev.op = "leave" -> Go(Ev.arg)
        [] Ev.op = "end" /\ prog = "running" -> End(Ev.arg)
        [] Ev.op = "close" -> Shut
        [] OTHER -> UNCHANGED vars
Sum(f, p) == IF p \in DOMAIN f THEN f[p] ELSE 0
Counted == count' = IF Ev.op \in {"rest", "work", "end"} /\ cur # <<>>
                    THEN [p \in DOMAIN count \cup Prefixes(cur) |-> Sum(count, p) + (IF p \in Prefixes(cur) THEN Ev.count ELSE 0)]
                    ELSE count

(* Messages: what each client was told since the last event.                      *)
Told1 == ToSet(Ev.told)
Hits == ToSet(Ev.hits)
P == {"C27"}
Checks == FirstBad(<<
  Clause(P, "the program was hindered: " \o Ev.crash, Ev.crash = ""),
  Clause(P, "a client is told the wrong way: " \o Ev.wrong, Ev.wrong = ""),
  Clause(P, "results show functions that were never called", \A m \in Told1 : ToSet(m.paths) \subseteq done'),
  CASE Ev.op = "begin" -> Clause(P, "the program did not begin", Ev.ok)
    [] Ev.op = "see" -> Clause(P, "the program sees another " \o Ev.what, Ev.got = Ev.want)
    [] Ev.op = "connect" -> Clause(P, "a client is not greeted", Ev.ok)
    [] Ev.op = "look" -> Clause(P, "connected clients do not learn what the program does", ToSet(Ev.learned) = conn)
    [] Ev.op = "on" -> Clause(P, "the program is not profiled though a client is connected", Ev.ok)
    [] Ev.op = "off" -> Clause(P, "the program is profiled though no client is connected", Ev.ok)
    [] Ev.op = "rest" -> Clause(P, "more calls are told than made",
                                Ev.kind # "tracing" \/ \A h \in Hits : h.n <= Sum(count', h.p))
    [] Ev.op = "end" -> FirstBad(<<
         Clause(P, "clients do not notice the end of the program", Ev.ok),
         Clause(P, "the program did other things than it should", Ev.got = Ev.want),
         Clause(P, "exit status of the program", IsLive \/ Ev.status = Ev.arg),
         Clause(P, "error output of the program", IsLive \/ (Ev.errs = err' /\ Ev.trace = (Ev.arg = "raise"))),
         Clause(P, "more calls are told than made",
                Ev.kind # "tracing" \/ \A h \in Hits : h.n <= Sum(count', h.p))>>)
    [] Ev.op = "close" -> FirstBad(<<
         Clause(P, "the program goes on after the viewer is closed", Ev.ok),
         Clause(P, "exit status that is passed on", IF prog = "ended" THEN passed'[1] = status ELSE TRUE),
         Clause(P, "errors that are passed on", passed'[2] = err' /\ Ev.trace = (status = "raise"))>>)
    [] OTHER -> "">>)
TNext == More /\ Do /\ Counted /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<tvars, tr, l, bad>>
=============================================================================
