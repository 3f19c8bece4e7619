----------------------------- MODULE TraceOneShot ----------------------------
(* Validates what real programs under the commands did, and what was delivered.   *)
EXTENDS OneShot, TraceBase

TInit == TraceStart /\ Init
Conf == Traces[tr][1]
Do == CASE Ev.op = "begin" -> Begin(Ev.prog, Ev.reps)
        [] Ev.op = "step" -> IF phase = "running" THEN Step ELSE UNCHANGED vars
        [] Ev.op = "deliver" -> IF phase = "ended" THEN Deliver ELSE UNCHANGED vars
        [] OTHER -> UNCHANGED vars

(* A step with neither operations left nor functions to return from is the end of *)
(* a repetition; the program logs each operation it executes, and each function   *)
(* that returns for want of operations as "end".                                  *)
Expected == IF phase # "running" THEN <<"nothing", 0>>
            ELSE IF prog = <<>> THEN <<"end", 0>> ELSE Head(prog)
Tracing == Conf.profiler = "tracing"
(* Rows: path below the outermost level, own hits.                                 *)
Rows == {<<r.p, r.hits>> : r \in ToSet(Ev.rows)}
Paths == {r.p : r \in ToSet(Ev.rows)}
Checks == FirstBad(<<
  IF Ev.op = "step" THEN FirstBad(<<
    Clause({"C25"}, "the program was run again after its end", phase = "running"),
    Clause({"C25"}, "the program executed something else", Ev.did = Expected),
    Clause({"C25"}, "the program is not profiled while it runs", Ev.on),
    Clause({"C25"}, "the program sees another " \o Ev.what, Ev.got = Ev.want)>>)
  ELSE IF Ev.op = "deliver" THEN FirstBad(<<
    Clause({"C25"}, "the command ended otherwise: " \o Ev.crash, Ev.crash = ""),
    Clause({"C25"}, "the program was not run to its end", phase = "ended"),
    Clause({"C25"}, "delivered " \o ToString(Ev.times) \o " times", Ev.times = 1),
    Clause({"C25"}, "profiling goes on after the program", ~Ev.on),
    Clause({"C25"}, "no traceback, or one without need", IF ending = "exit" THEN TRUE ELSE Ev.tracebacks = (IF ending' = "return" THEN 0 ELSE 1)),
    Clause({"C25"}, "another traceback", ending' \in {"return", "exit"} \/ Ev.error = ending'),
    Clause({"C25"}, "output of the program", Ev.printed = Ev.prints /\ Ev.erred = Ev.errs),
    Clause({"C25"}, "delivered in another form: " \o Ev.form, Ev.form = Conf.form),
    Clause({"C25"}, "frames of the profiler are in the profile", Ev.own = 0),
    Clause({"C25"}, "calls of the program in the profile",
      IF Tracing THEN /\ Rows = {<<p, calls[p]>> : p \in DOMAIN calls} /\ Len(Ev.rows) = Cardinality(DOMAIN calls)
      ELSE Paths \subseteq DOMAIN calls /\ Cardinality(Paths) = Len(Ev.rows)),
    Clause({"C25"}, "the outermost level in the profile", Ev.top = 1 \/ ~Tracing),
    Clause({"C25"}, "long running functions were not sampled", Tracing \/ \A p \in ToSet(Ev.burned) : p \in Paths \cup {<<>>})>>)
  ELSE "">>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
