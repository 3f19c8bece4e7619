------------------------------ MODULE Lifecycle ------------------------------
(* Starting and stopping of profilers, timers and samplers, and the process- *)
(* wide resources they occupy while running: the profiling hook of the main   *)
(* thread and of future threads, the SIGPROF disposition and the interval     *)
(* timer.  Properties C01 and C02.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Obj,       \* the runnable objects of a scenario
          MaxWork,   \* bounds for exhaustive exploration only
          MaxSess

Kinds == {"tracing",    \* TracingProfiler with a timer whose start/stop can be made to fail
          "itimer",     \* SamplingProfiler with the signal based sampler
          "tsampler",   \* SamplingProfiler with the event based sampler
          "custom",     \* SamplingProfiler with a user defined sampler that can be made to fail
          "plain",      \* a Runnable subclass of the user
          "wrapper"}    \* a ProfilerWrapper around a plain profiler

VARIABLES
  kind,    \* Obj -> Kinds
  run,     \* Obj -> BOOLEAN: started and not yet stopped
  sub,     \* Obj -> BOOLEAN: its timer or sampler (or wrapped profiler) runs
  hook,    \* profiling hook of the main thread: "none", "foreign" or its owner
  fut,     \* profiling hook future threads start with
  sig,     \* SIGPROF disposition: "DFL", "IGN", "custom" or its owner
  itv,     \* interval timer: "off", "user" or its owner
  saved,   \* Obj -> what the signal sampler has to give back
  seen,    \* Obj -> indices of the work items recorded in the session
  may,     \* Obj -> work items whose recording is left open
  known,   \* Obj -> BOOLEAN: the recorded data are determined
  sess,    \* Obj -> number of the session
  nset, nclean,  \* Obj -> executions of the set-up / clean-up half
  whook,   \* hook the long-lived worker thread runs with: <<owner, session>>; <<"absent",0>> without worker
  work,    \* number of work items executed
  out      \* outcome of the last operation

ctl == <<kind, run, sub, hook, fut, sig, itv, saved, sess, whook>>
vars == <<kind, run, sub, hook, fut, sig, itv, saved, seen, may, known, sess, nset, nclean, whook, work, out>>

NoWorker == <<"absent", 0>>

InitWith(k) ==
  /\ kind = k
  /\ run = [o \in Obj |-> FALSE] /\ sub = [o \in Obj |-> FALSE]
  /\ hook = "none" /\ fut = "none" /\ sig = "DFL" /\ itv = "off"
  /\ saved = [o \in Obj |-> [sig |-> "DFL", itv |-> "off"]]
  /\ seen = [o \in Obj |-> {}] /\ may = [o \in Obj |-> {}] /\ known = [o \in Obj |-> TRUE]
  /\ sess = [o \in Obj |-> 0] /\ nset = [o \in Obj |-> 0] /\ nclean = [o \in Obj |-> 0]
  /\ whook = NoWorker /\ work = 0 /\ out = "ok"

Init == \E k \in [Obj -> Kinds] : InitWith(k)

IsHooking(o) == kind[o] \in {"tracing", "tsampler"}

(* ---- start ------------------------------------------------------------- *)

(* Failures that can be injected into the set-up half, by kind.             *)
StartFaults(k) == CASE k = "tracing"  -> {"none", "sub", "subvalue", "thr"}
                    [] k = "itimer"   -> {"none", "sub"}
                    [] k = "tsampler" -> {"none", "thr"}
                    [] k = "custom"   -> {"none", "sub", "subvalue"}
                    [] k = "plain"    -> {"none", "setup", "noyield", "value"}
                    [] k = "wrapper"  -> {"none", "sub"}
StopFaults(k) == CASE k = "tracing" -> {"none", "sub"}
                   [] k = "custom"  -> {"none", "sub"}
                   [] k = "plain"   -> {"none", "cleanup", "twice"}
                   [] k = "wrapper" -> {"none", "sub"}
                   [] OTHER -> {"none"}

FaultOutcome(f) == IF f \in {"subvalue", "noyield", "value", "twice"} THEN "TypeError" ELSE "Fault"

NothingButOut(x) == /\ out' = x
                    /\ UNCHANGED <<kind, run, sub, hook, fut, sig, itv, saved, seen, may, known, sess, nset, nclean, whook, work>>

StartRefused(o) == run[o] /\ NothingButOut("RuntimeError")

(* Another hook is registered: refused; what was recorded earlier may be gone. *)
StartOverForeign(o) ==
  /\ ~run[o] /\ kind[o] = "tracing" /\ hook # "none"
  /\ out' = "RuntimeError" /\ known' = [known EXCEPT ![o] = FALSE]
  /\ UNCHANGED <<kind, run, sub, hook, fut, sig, itv, saved, seen, may, sess, nset, nclean, whook, work>>

StartFails(o, f) ==
  /\ ~run[o] /\ f \in StartFaults(kind[o]) \ {"none"}
  /\ ~(kind[o] = "tracing" /\ hook # "none")
  /\ out' = FaultOutcome(f) /\ known' = [known EXCEPT ![o] = FALSE]
  /\ nset' = [nset EXCEPT ![o] = IF kind[o] = "plain" THEN @ + 1 ELSE @]
  \* the set-up half of a plain runnable was entered; its clean-up half must not run
  /\ sig' = IF kind[o] = "itimer" /\ sig = "DFL" THEN "IGN" ELSE sig
  /\ UNCHANGED <<kind, run, sub, hook, fut, itv, saved, seen, may, sess, nclean, whook, work>>

StartWorks(o) ==
  /\ ~run[o] /\ ~(kind[o] = "tracing" /\ hook # "none")
  /\ run' = [run EXCEPT ![o] = TRUE]
  /\ sub' = [sub EXCEPT ![o] = kind[o] # "plain"]
  /\ hook' = IF IsHooking(o) THEN o ELSE hook
  /\ fut' = IF IsHooking(o) THEN o ELSE fut
  /\ saved' = IF kind[o] = "itimer"
              THEN [saved EXCEPT ![o] = [sig |-> IF sig = "DFL" THEN "IGN" ELSE sig, itv |-> itv]] ELSE saved
  /\ sig' = IF kind[o] = "itimer" THEN o ELSE sig
  /\ itv' = IF kind[o] = "itimer" THEN o ELSE itv
  /\ seen' = [seen EXCEPT ![o] = {}] /\ may' = [may EXCEPT ![o] = {}]
  /\ known' = [known EXCEPT ![o] = TRUE]
  /\ sess' = [sess EXCEPT ![o] = @ + 1]
  /\ nset' = [nset EXCEPT ![o] = IF kind[o] = "plain" THEN @ + 1 ELSE @]
  /\ out' = "ok"
  /\ UNCHANGED <<kind, nclean, whook, work>>

Start(o, f) == \/ StartRefused(o)
               \/ StartOverForeign(o)
               \/ StartFails(o, f)
               \/ (f = "none" /\ StartWorks(o))

(* ---- stop -------------------------------------------------------------- *)

StopRefused(o) == ~run[o] /\ NothingButOut("RuntimeError")

Released(o, f) ==
  /\ run' = [run EXCEPT ![o] = FALSE] /\ sub' = [sub EXCEPT ![o] = FALSE]
  /\ hook' = IF hook = o THEN "none" ELSE hook
  /\ fut' = IF fut = o THEN "none" ELSE fut
  /\ sig' = IF kind[o] = "itimer" THEN saved[o].sig ELSE sig
  /\ itv' = IF kind[o] = "itimer" THEN saved[o].itv ELSE itv
  /\ nclean' = [nclean EXCEPT ![o] = IF kind[o] = "plain" THEN @ + 1 ELSE @]
  /\ UNCHANGED <<kind, saved, seen, may, known, sess, nset, whook, work>>

Stop(o, f) == \/ StopRefused(o)
              \/ run[o] /\ Released(o, f) /\ out' = IF f = "none" THEN "ok" ELSE FaultOutcome(f)

(* Leaving a with block, normally or by an exception of its body.            *)
Exit(o, f, exc) == \/ ~run[o] /\ NothingButOut("RuntimeError")
                   \/ run[o] /\ Released(o, f)
                      /\ out' = IF f # "none" THEN FaultOutcome(f) ELSE IF exc THEN "Body" ELSE "ok"

(* ---- the environment ------------------------------------------------------ *)

Foreign(on) == /\ hook \in {"none", "foreign"} /\ hook' = (IF on THEN "foreign" ELSE "none") /\ out' = "ok"
               /\ UNCHANGED <<kind, run, sub, fut, sig, itv, saved, seen, may, known, sess, nset, nclean, whook, work>>
SetSig(v) == /\ sig \notin Obj /\ sig' = v /\ out' = "ok"
             /\ UNCHANGED <<kind, run, sub, hook, fut, itv, saved, seen, may, known, sess, nset, nclean, whook, work>>
SetItv(v) == /\ itv \notin Obj /\ itv' = v /\ out' = "ok"
             /\ UNCHANGED <<kind, run, sub, hook, fut, sig, saved, seen, may, known, sess, nset, nclean, whook, work>>

(* The main thread calls a new function and a SIGPROF arrives meanwhile.       *)
Work == /\ work' = work + 1 /\ out' = "ok"
        /\ seen' = [o \in Obj |-> IF hook = o \/ sig = o THEN seen[o] \cup {work + 1} ELSE seen[o]]
        /\ UNCHANGED <<kind, run, sub, hook, fut, sig, itv, saved, may, known, sess, nset, nclean, whook>>

(* A thread that is started now and lives on.                                   *)
Spawn == /\ whook = NoWorker /\ whook' = <<fut, IF fut \in Obj THEN sess[fut] ELSE 0>> /\ out' = "ok"
         /\ UNCHANGED <<kind, run, sub, hook, fut, sig, itv, saved, seen, may, known, sess, nset, nclean, work>>

(* It calls a new function.  Whether a thread started under an earlier session *)
(* is recorded in a later one is left open; after the stop it is not recorded.  *)
Poke == /\ whook # NoWorker /\ work' = work + 1 /\ out' = "ok"
        /\ LET h == whook[1] IN
           /\ seen' = IF h \in Obj /\ run[h] /\ whook[2] = sess[h]
                      THEN [seen EXCEPT ![h] = @ \cup {work + 1}] ELSE seen
           /\ may' = IF h \in Obj /\ run[h] /\ whook[2] # sess[h]
                     THEN [may EXCEPT ![h] = @ \cup {work + 1}] ELSE may
        /\ UNCHANGED <<kind, run, sub, hook, fut, sig, itv, saved, known, sess, nset, nclean, whook>>

(* ---- scope of the scenarios -------------------------------------------------- *)
(* Signal samplers are nested last in, first out; the event based sampler is not *)
(* started over another hook.                                                    *)
CanStart(o) == (kind[o] = "tsampler" /\ ~run[o]) => hook = "none"
CanStop(o) == (kind[o] = "itimer" /\ run[o]) => sig = o

Next == \/ \E o \in Obj : CanStart(o) /\ \E f \in StartFaults(kind[o]) : Start(o, f)
        \/ \E o \in Obj : CanStop(o) /\ \E f \in StopFaults(kind[o]) :
              Stop(o, f) \/ \E exc \in BOOLEAN : Exit(o, f, exc)
        \/ \E b \in BOOLEAN : Foreign(b)
        \/ \E v \in {"DFL", "IGN", "custom"} : SetSig(v)
        \/ \E v \in {"off", "user"} : SetItv(v)
        \/ Work \/ Spawn \/ Poke

Spec == Init /\ [][Next]_vars

Bound == work <= MaxWork /\ \A o \in Obj : sess[o] <= MaxSess /\ nset[o] <= MaxSess + 1

(* ---- properties ----------------------------------------------------------- *)

TypeOK == /\ hook \in {"none", "foreign"} \cup Obj /\ fut \in {"none"} \cup Obj
          /\ sig \in {"DFL", "IGN", "custom"} \cup Obj /\ itv \in {"off", "user"} \cup Obj

(* C01 *)
SetupCleanupPaired == \A o \in Obj : kind[o] = "plain" => nclean[o] <= nset[o]
SubRunsWithOwner == \A o \in Obj : kind[o] # "plain" => (sub[o] <=> run[o])
RefusedChangesNothing == [][out' = "RuntimeError" =>
    UNCHANGED <<run, sub, hook, fut, sig, itv, seen, nset, nclean>>]_vars
(* C02 *)
HooksOnlyWhileRunning == /\ (hook \in Obj => run[hook])
                         /\ (fut \in Obj => run[fut])
                         /\ (sig \in Obj => run[sig])
                         /\ (itv \in Obj => run[itv])
TracingHasHook == \A o \in Obj : (kind[o] = "tracing" /\ run[o]) => (hook = o /\ fut = o)
OneTracer == Cardinality({o \in Obj : IsHooking(o) /\ run[o]}) <= 1
NeverDefaultAgain == [][\A o \in Obj : (run[o] /\ ~run'[o] /\ kind[o] = "itimer") => sig' # "DFL"]_vars
NothingRecordedWhenStopped == [][\A o \in Obj : (~run[o] /\ ~run'[o]) => seen'[o] = seen[o]]_vars
=============================================================================
