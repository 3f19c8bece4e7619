--------------------------- MODULE TraceFrameStack ----------------------------
EXTENDS FrameStack, TraceBase
TInit == TraceStart /\ chain = <<>> /\ base = 0 /\ bcode = "" /\ ignf = {} /\ ignc = {}
TNext == /\ More /\ Advance
         /\ chain' = Ev.chain /\ base' = Ev.base /\ bcode' = Ev.bcode
         /\ ignf' = ToSet(Ev.ignf) /\ ignc' = ToSet(Ev.ignc)
         /\ bad' = FirstBad(<<
              Clause({"C08"}, "frame stack of the Python implementation", Ev.python = Result'),
              Clause({"C08"}, "frame stack of the C implementation", Ev.c = Result'),
              Clause({"C08"}, "frame stack of a profiler", Ev.profiler = Result')>>)
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
