---------------------------- MODULE TraceDeferral ----------------------------
(* Validates recorded uses of the real helper against Deferral.               *)
EXTENDS Deferral, TraceBase

TInit == TraceStart /\ Init

Do == CASE Ev.op = "reg" -> Register(Ev.b, Ev.kind)
        [] Ev.op = "end" -> End(Ev.b, Ev.how)
        [] Ev.op = "call" -> IF phase[Ev.b] = "draining" /\ stack[Ev.b] # <<>> THEN Execute(Ev.b) ELSE UNCHANGED vars
        [] Ev.op = "left" -> IF ENABLED Leave(Ev.b, Ev.raised) THEN Leave(Ev.b, Ev.raised) ELSE UNCHANGED vars

Checks == CASE Ev.op = "call" -> FirstBad(<<
                Clause({"C03"}, "deferred call before its block ends", phase[Ev.b] # "open"),
                Clause({"C03"}, "deferred call executed again or after the block", phase[Ev.b] = "draining" /\ stack[Ev.b] # <<>>),
                Clause({"C03"}, "reverse order of registration",
                       stack[Ev.b] # <<>> /\ Top(stack[Ev.b]).call = Ev.id),
                Clause({"C03"}, "registered arguments", Ev.args)>>)
            [] Ev.op = "left" -> FirstBad(<<
                Clause({"C03"}, "every deferred call executed", stack[Ev.b] = <<>>),
                Clause({"C03"}, "failure not swallowed", failed[Ev.b] # {} => Ev.raised # -1),
                Clause({"C03"}, "no other failure", Ev.raised \in failed[Ev.b] \cup {-1})>>)
            [] OTHER -> ""

TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
