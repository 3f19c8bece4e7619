------------------------------ MODULE TraceConfig -----------------------------
(* Validates the settings real commands ran with.                                 *)
EXTENDS Config, TraceBase

TInit == TraceStart /\ Init
Do == CASE Ev.op = "write" -> Write(Ev.file, Ev.option, Ev.value)
        [] Ev.op = "run" -> Run(Ev.cmd, Ev.cli, Ev.pickles)
Wrong == {o \in Options : Ev.effect[o] # last'[4][o]}
Checks == IF Ev.op = "write" THEN "" ELSE FirstBad(<<
  Clause({"C26"}, Ev.cmd \o " was not rejected", last'[3] = "usage" => Ev.out = "usage" \/ Ev.out \notin {"ran"}),
  Clause({"C26"}, Ev.cmd \o " was rejected", last'[3] = "ran" => Ev.out # "usage"),
  Clause({"C26"}, Ev.cmd \o " ended in another way: " \o Ev.out, Ev.out \in {"usage", "ran"}),
  Clause({"C26"}, Ev.cmd \o " ran something although rejected", last'[3] = "usage" => ~Ev.program),
  Clause({"C26"}, Ev.cmd \o " did not run the program", last'[3] = "ran" => Ev.program),
  Clause({"C26"}, Ev.cmd \o " used other settings", Wrong = {})>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
