--------------------------------- MODULE Config ---------------------------------
(* Where a command takes its settings from: the command line, else .profiling,    *)
(* else setup.cfg, else the default.  Sources are changed between runs; a run     *)
(* reads what they say then.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Used     \* options that vary in exhaustive checking

(* What the values of an option mean; anything else is not valid.                 *)
Mean ==
  [ profiler |-> [tracing |-> "tracing", sampling |-> "sampling"],
    timer |-> [basic |-> "basic", thread |-> "thread", greenlet |-> "greenlet"],
    sampler |-> [itimer |-> "itimer", tracing |-> "tracing"],
    sampling_interval |-> ("0.004" :> "0.004" @@ "1e-2" :> "0.01" @@ ".25" :> "0.25" @@ "3" :> "3.0"),
    pickle_protocol |-> ("0" :> "0" @@ "1" :> "1" @@ "2" :> "2" @@ "3" :> "3" @@ "4" :> "4" @@ "5" :> "5"),
    interval |-> ("2" :> "2.0" @@ "0.3" :> "0.3" @@ "7.5" :> "7.5"),
    spawn |-> [threading |-> "threading", gevent |-> "gevent"],
    signum |-> ("10" :> "10" @@ "USR2" :> "12" @@ "SIGHUP" :> "1" @@ "sigusr1" :> "10" @@ "alrm" :> "14"),
    endpoint |-> ("127.0.0.1:7001" :> "127.0.0.1:7001" @@ "127.0.0.2:8912" :> "127.0.0.2:8912" @@ "localhost:9" :> "localhost:9") ]
Default ==
  [ profiler |-> "tracing", timer |-> "basic", sampler |-> "itimer", sampling_interval |-> "0.001",
    pickle_protocol |-> "4", interval |-> "1.0", spawn |-> "threading", signum |-> "12", endpoint |-> "127.0.0.1:8912" ]
Bad ==
  [ profiler |-> {"cprofile", "Tracing profiler"}, timer |-> {"quartz", "0"}, sampler |-> {"dice", "1"},
    sampling_interval |-> {"fast", "1,5", "0.1s"}, pickle_protocol |-> {"99", "2.5", "latest"},
    interval |-> {"often", "1s"}, spawn |-> {"process", "Threads"}, signum |-> {"NOSUCH", "999", "0", "SIG_DFL", "4x"},
    endpoint |-> {"nowhere", "127.0.0.1", "127.0.0.1:http", "1:2:3"} ]
Options == DOMAIN Default
Good(o) == DOMAIN Mean[o]

Profilers == {"profiler", "timer", "sampler", "sampling_interval", "pickle_protocol"}
Lives == Profilers \cup {"interval", "spawn", "signum"}
Commands == {"profile", "timeit", "live", "remote", "view"}
Of(cmd) == CASE cmd \in {"profile", "timeit"} -> Profilers
             [] cmd = "live" -> Lives
             [] cmd = "remote" -> Lives \cup {"endpoint"}
             [] cmd = "view" -> {"endpoint"}
(* profile and timeit know -T and -S, which cannot be wrong.                       *)
CliBad(o) == IF o = "profiler" THEN {} ELSE Bad[o]

VARIABLES dot, setup,  \* option -> raw value, "" if absent
          last         \* <<command, command line, outcome, effective settings>>
vars == <<dot, setup, last>>
None == [o \in Options |-> ""]
Init == dot = None /\ setup = None /\ last = <<"", None, "", None>>

First(o, cli, d, s) == IF cli[o] # "" THEN cli[o] ELSE IF d[o] # "" THEN d[o] ELSE s[o]
Valid(o, raw) == raw = "" \/ raw \in Good(o)
Value(o, raw) == IF raw = "" THEN Default[o] ELSE Mean[o][raw]
Rejected(cmd, cli, d, s) == \E o \in Of(cmd) : ~Valid(o, First(o, cli, d, s))
Outcome(cmd, cli, d, s) == IF Rejected(cmd, cli, d, s) THEN "usage" ELSE "ran"
(* Of the settings of a profiler only those of its kind have an effect, and the   *)
(* protocol only if something is pickled.                                         *)
Effect(cmd, cli, d, s, pickles) ==
  LET V(o) == Value(o, First(o, cli, d, s))
      Matter == Of(cmd) \ ((IF "profiler" \notin Of(cmd) THEN {} ELSE IF V("profiler") = "tracing"
                            THEN {"sampler", "sampling_interval"} ELSE {"timer"})
                           \cup (IF pickles THEN {} ELSE {"pickle_protocol"}))
  IN IF Rejected(cmd, cli, d, s) THEN None
     ELSE [o \in Options |-> IF o \in Matter THEN V(o) ELSE ""]

Write(file, o, v) == \/ file = ".profiling" /\ dot' = [dot EXCEPT ![o] = v] /\ UNCHANGED <<setup, last>>
                     \/ file = "setup.cfg" /\ setup' = [setup EXCEPT ![o] = v] /\ UNCHANGED <<dot, last>>
Run(cmd, cli, pickles) == /\ last' = <<cmd, cli, Outcome(cmd, cli, dot, setup), Effect(cmd, cli, dot, setup, pickles)>>
                          /\ UNCHANGED <<dot, setup>>

Some(o) == {"", CHOOSE v \in Good(o) : TRUE, CHOOSE v \in Bad[o] : TRUE} \cup {CHOOSE v \in Good(o) : v # CHOOSE w \in Good(o) : TRUE}
Few == [Used -> UNION {Some(o) : o \in Used}]
CliOf(f) == [o \in Options |-> IF o \in Used THEN f[o] ELSE ""]
Next == \/ \E file \in {".profiling", "setup.cfg"}, o \in Used : \E v \in Some(o) : Write(file, o, v)
        \/ \E cmd \in Commands, f \in Few : /\ \A o \in Used : f[o] \in Some(o) /\ (o = "profiler" => f[o] \notin Bad[o])
                                            /\ Run(cmd, CliOf(f), TRUE)
Spec == Init /\ [][Next]_vars

(* The command line decides.                                                       *)
CliDecides == \A o \in Options : last[4][o] # "" /\ last[2][o] # "" => last[4][o] = Mean[o][last[2][o]]
(* A run in which nothing is valid to begin with uses no value that was not given. *)
Justified == [][\A o \in Options : last' # last /\ last'[4][o] # "" =>
                  last'[4][o] \in {Default[o]} \cup {Mean[o][v] : v \in Good(o) \cap {last'[2][o], dot[o], setup[o]}}]_vars
(* What is said of one option has no influence on another, but that the run may be *)
(* rejected for it.                                                                *)
Independent == \A cmd \in Commands, o, p \in Used : o # p => \A v \in Some(p) :
  LET a == Effect(cmd, None, dot, setup, TRUE)
      b == Effect(cmd, None, [dot EXCEPT ![p] = v], setup, TRUE)
  IN a[o] # "" /\ b[o] # "" => a[o] = b[o]
(* A value in a file is without effect, right or wrong, if one before it says      *)
(* something.                                                                      *)
Shadowed == \A cmd \in Commands, o \in Used : dot[o] # "" => \A v \in Some(o) :
  /\ Effect(cmd, None, dot, [setup EXCEPT ![o] = v], TRUE) = Effect(cmd, None, dot, setup, TRUE)
  /\ Rejected(cmd, None, dot, [setup EXCEPT ![o] = v]) = Rejected(cmd, None, dot, setup)
(* Rejected runs profile nothing.                                                  *)
NothingRuns == last[3] = "usage" => last[4] = None
=============================================================================
