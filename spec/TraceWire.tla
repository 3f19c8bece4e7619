------------------------------- MODULE TraceWire ------------------------------
(* Validates what real receivers got.  A connection that was reset may lose what  *)
(* was delivered, but only from its end.                                          *)
EXTENDS Wire, TraceBase

TInit == TraceStart /\ Init
Do == CASE Ev.op = "send" -> Send(Ev.size - M - S)
        [] Ev.op = "deliver" -> Deliver(Ev.n)
        [] Ev.op = "end" -> End
        [] OTHER -> calls' = Append(calls, Ev.got) /\ UNCHANGED <<sent, there, over, pos, part, need>>
(* Ev.got: number of the message that is equal to the received one, CLOSED, or    *)
(* a negative number for what else happened.                                      *)
Names == <<"another message", "another error", "nothing">>
Next_ == Len(calls) + 1
Checks == FirstBad(<<
  IF Ev.op # "recv" THEN ""
  ELSE IF Ev.got = CLOSED THEN Clause({"C15"}, "a message that arrived is not received", Ev.reset \/ Expected(Next_) = CLOSED)
  ELSE Clause({"C15"}, "received " \o (IF Ev.got < 0 THEN Names[-Ev.got] ELSE "out of order"), Ev.got = Expected(Next_))>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
