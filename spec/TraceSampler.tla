----------------------------- MODULE TraceSampler -----------------------------
(* Validates the samples the real sampler took.                                 *)
EXTENDS Sampler, TraceBase

TInit == TraceStart /\ Init
Do == CASE Ev.op = "event" -> Event(Ev.t, Ev.d)
        [] Ev.op = "burst" -> Burst(Ev.t, Ev.d, Ev.n)
        [] Ev.op = "spawn" -> Spawn(Ev.t, Ev.s)
        [] Ev.op = "end" -> End(Ev.t)
        [] Ev.op = "start" -> Start
        [] Ev.op = "stop" -> Stop
Who == IF Ev.op \in {"start", "stop"} THEN "M" ELSE Ev.t
Expected == taken'[Who] - (IF Ev.op = "spawn" THEN 0 ELSE taken[Who])
Checks == FirstBad(<<
  Clause({"C07"}, "a sample is missing", Ev.samples >= Expected),
  Clause({"C07"}, "too many samples", Ev.samples <= Expected),
  Clause({"C07"}, "sample of another thread", Ev.others = 0)>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
