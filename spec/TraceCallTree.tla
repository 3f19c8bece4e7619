---------------------------- MODULE TraceCallTree ----------------------------
(* Validates results of the real profilers against the program that was run.   *)
EXTENDS CallTree, TraceBase

TInit == TraceStart /\ InitWith(Traces[tr][1].kind, Traces[tr][1].timer)

Do == CASE Ev.op \in {"program", "builtin", "result"} -> UNCHANGED vars
        [] Ev.op \in {"call", "bcall"} -> Call(Ev.arg)
        [] Ev.op = "ret" -> Return
        [] Ev.op = "raise" -> Raise(Ev.arg)
        [] Ev.op = "gen" -> NewGen(Ev.g, Ev.fn)
        [] Ev.op = "resume" -> Resume(Ev.arg)
        [] Ev.op = "yield" -> Yield
        [] Ev.op = "tick" -> Tick(Ev.arg)
        [] Ev.op = "spawn" -> Spawn(Ev.arg)
        [] Ev.op = "join" -> Join(Ev.arg)
        [] Ev.op = "switch" -> Switch(Ev.arg)
        [] Ev.op = "start" -> Start(CfgOf(Ev.base, Ev.bcode, ToSet(Ev.ign), ToSet(Ev.ignact)))
        [] Ev.op = "stop" -> Stop
        [] Ev.op = "sample" -> Sample

Shown == {Ev.nodes[i].path : i \in 1..Len(Ev.nodes)}
Node(p) == Ev.nodes[CHOOSE i \in 1..Len(Ev.nodes) : Ev.nodes[i].path = p]
HitProp == IF kind = "tracing" THEN {"C04"} ELSE {"C06"}

Checks == FirstBad(<<
  Clause(HitProp, "a recorded path is missing", Recorded \subseteq Shown),
  Clause(HitProp, "hits of a path", \A p \in Shown : Node(p).calls = Get(calls, p)),
  Clause(HitProp, "ignored or base functions in the tree",
         \A p \in Shown : p \in Ancestors \/ \A i \in 1..Len(p) : p[i] \notin cfg.ign),
  Clause(HitProp, "a path that never was executed", kind = "tracing" => \A p \in Shown : p \in Ancestors \cup anc),
  Clause(HitProp, "a path that never was sampled", kind = "sampling" => \A p \in Shown : p \in Ancestors),
  Clause({"C06"}, "inclusive hits are the number of samples", kind = "sampling" => Ev.deep = TotalHits /\ Ev.other = roothits),
  Clause({"C05"}, "time of a path", kind = "tracing" => \A p \in Shown : Node(p).time = NodeTime(p)),
  Clause({"C05"}, "CPU time without overhead", kind = "tracing" => Ev.cpu = CpuTime)
  >>)

TNext == /\ More /\ Do /\ Advance
         /\ bad' = IF Ev.op = "result" THEN Checks ELSE ""
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
