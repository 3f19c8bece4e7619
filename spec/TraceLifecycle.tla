--------------------------- MODULE TraceLifecycle ---------------------------
(* Validates recorded histories of the real objects against Lifecycle.        *)
EXTENDS Lifecycle, TraceBase

TInit == /\ TraceStart
         /\ InitWith([o \in Obj |-> Traces[tr][1].kinds[o]])

Proj(x) == IF x \in Obj THEN "profiler" ELSE x

(* `fired`: the fault the driver armed was reached; otherwise it counts as none. *)
Fault == IF Ev.fired THEN Ev.f ELSE "none"

Do == CASE Ev.op = "config"  -> UNCHANGED vars
        [] Ev.op \in {"start", "enter"} -> Start(Ev.o, Fault)
        [] Ev.op = "stop"    -> Stop(Ev.o, Fault)
        [] Ev.op = "exit"    -> Exit(Ev.o, Fault, Ev.exc)
        [] Ev.op = "foreign" -> Foreign(Ev.on)
        [] Ev.op = "setsig"  -> SetSig(Ev.v)
        [] Ev.op = "setitv"  -> SetItv(Ev.v)
        [] Ev.op = "work"    -> Work
        [] Ev.op = "spawn"   -> Spawn
        [] Ev.op = "poke"    -> Poke

Checks(e) == LET b == e.obs IN FirstBad(<<
  Clause({"C01"}, "outcome of " \o e.op, e.out = out'),
  Clause({"C02"}, "start over a foreign hook is refused",
         e.op \in {"start", "enter"} /\ hook = "foreign" /\ kind[e.o] = "tracing" => e.out = out'),
  Clause({"C01"}, "is_running after " \o e.op, \A o \in Obj : b.run[o] = run'[o]),
  Clause({"C01"}, "set-up executed once per start", \A o \in Obj : kind[o] = "plain" => b.nset[o] = nset'[o]),
  Clause({"C01"}, "clean-up executed once per stop", \A o \in Obj : kind[o] = "plain" => b.nclean[o] = nclean'[o]),
  Clause({"C01"}, "refused operation left statistics alone",
         out' = "RuntimeError" => \A o \in Obj : known[o] /\ known'[o] => seen'[o] \subseteq ToSet(b.seen[o])),
  Clause({"C02"}, "hook of the main thread after " \o e.op, b.hook = Proj(hook')),
  Clause({"C02"}, "hook of future threads after " \o e.op, b.fut = Proj(fut')),
  Clause({"C02"}, "SIGPROF disposition after " \o e.op, b.sig = Proj(sig')),
  Clause({"C02"}, "interval timer after " \o e.op,
         (\E o \in Obj : kind[o] = "itimer") => b.itv = itv'),
  Clause({"C02"}, "timer/sampler running after " \o e.op,
         \A o \in Obj : kind[o] \in {"tracing", "itimer", "tsampler", "custom"} => b.sub[o] = sub'[o]),
  Clause({"C02"}, "recorded although not running", \A o \in Obj : known'[o] => ToSet(b.seen[o]) \subseteq (seen'[o] \cup may'[o])),
  Clause({"C02"}, "not recorded although running",
         e.op \in {"work", "poke"} => \A o \in Obj : (seen'[o] \ seen[o]) \subseteq ToSet(b.seen[o]))
  >>)

TNext == /\ More /\ Do /\ Advance
         /\ bad' = IF Ev.op = "config" THEN "" ELSE Checks(Ev)
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
