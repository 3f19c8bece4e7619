---------------------------- MODULE TraceBackground ---------------------------
(* Validates what callers of the real wrapper and the main thread saw.            *)
EXTENDS Background, TraceBase

TInit == TraceStart /\ Init
Req == Ev.op \in {"start", "stop"}
Do == CASE Req -> Whole(Ev.op)
        [] Ev.op = "break" -> Break
        [] OTHER -> UNCHANGED vars
(* Ev: what the call raised, what was done in which thread before it returned,    *)
(* whether each says it runs then, what disturbed the main program.                *)
Err == [refused |-> "RuntimeError", error |-> "Fault", ok |-> ""]
Checks == FirstBad(<<
  Clause({"C21"}, "the main program was disturbed", Ev.disturbed = ""),
  IF ~Req THEN Clause({"C21"}, "profiled although not started, or the reverse", Ev.op = "work" => Ev.profiled = on)
  ELSE FirstBad(<<
    Clause({"C21"}, "the caller of " \o Ev.op \o " got another outcome", Ev.err = Err[result']),
    Clause({"C21"}, "done before " \o Ev.op \o " returned", Ev.did = did'),
    Clause({"C21"}, "done in the main thread", \A i \in 1..Len(Ev.threads) : Ev.threads[i] = "main"),
    Clause({"C21"}, "wrapped profiler runs", Ev.inner = on'),
    Clause({"C21"}, "wrapper agrees", Ev.outer = on')>>)>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
