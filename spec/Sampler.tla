------------------------------- MODULE Sampler -------------------------------
(* The event-driven sampler.  A thread consumes CPU time; at an event of a     *)
(* thread that the sampler watches a sample is taken if the thread consumed an *)
(* interval since its previous sample.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thr, Interval, MaxTime, MaxThreads

Threads == Thr \cup {"M"}
VARIABLES alive, watched, now, prev, taken, run, log, born
vars == <<alive, watched, now, prev, taken, run, log, born>>
(* alive, watched: thread -> BOOLEAN; now: its CPU time; prev: CPU time at its  *)
(* previous sample; taken: number of its samples; log: CPU times of its watched *)
(* events; born: number of threads so far (names are given again).             *)

Init == /\ alive = [t \in Threads |-> t = "M"] /\ watched = [t \in Threads |-> FALSE]
        /\ now = [t \in Threads |-> 0] /\ prev = [t \in Threads |-> 0]
        /\ taken = [t \in Threads |-> 0] /\ run = FALSE
        /\ log = [t \in Threads |-> <<>>] /\ born = 0

Due(t, at) == at - prev[t] >= Interval

(* An event of t after it consumed d.                                           *)
Event(t, d) ==
  /\ alive[t] /\ now' = [now EXCEPT ![t] = @ + d]
  /\ IF watched[t]
     THEN /\ taken' = [taken EXCEPT ![t] = @ + IF Due(t, now[t] + d) THEN 1 ELSE 0]
          /\ prev' = [prev EXCEPT ![t] = IF Due(t, now[t] + d) THEN now[t] + d ELSE @]
          /\ log' = [log EXCEPT ![t] = Append(@, now[t] + d)]
     ELSE UNCHANGED <<taken, prev, log>>
  /\ UNCHANGED <<alive, watched, run, born>>

(* n events, each after a whole interval or more.                                *)
Burst(t, d, n) ==
  /\ alive[t] /\ d >= Interval /\ n > 0 /\ now' = [now EXCEPT ![t] = @ + d * n]
  /\ IF watched[t] THEN /\ taken' = [taken EXCEPT ![t] = @ + n]
                        /\ prev' = [prev EXCEPT ![t] = now[t] + d * n]
                   ELSE UNCHANGED <<taken, prev>>
  /\ UNCHANGED <<alive, watched, run, log, born>>

(* A thread that consumed s before its first event.                               *)
Spawn(t, s) ==
  /\ ~alive[t] /\ alive' = [alive EXCEPT ![t] = TRUE] /\ watched' = [watched EXCEPT ![t] = run]
  /\ now' = [now EXCEPT ![t] = s] /\ prev' = [prev EXCEPT ![t] = IF run /\ s >= Interval THEN s ELSE 0]
  /\ taken' = [taken EXCEPT ![t] = IF run /\ s >= Interval THEN 1 ELSE 0]
  /\ log' = [log EXCEPT ![t] = IF run THEN <<s>> ELSE <<>>] /\ born' = born + 1
  /\ UNCHANGED run

End(t) ==
  /\ t # "M" /\ alive[t] /\ alive' = [alive EXCEPT ![t] = FALSE] /\ watched' = [watched EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<now, prev, taken, run, log, born>>

(* Starting and stopping the sampler are themselves followed by events.          *)
Start ==
  /\ ~run /\ run' = TRUE /\ \A t \in Threads : ~watched[t]
  /\ watched' = [watched EXCEPT !["M"] = TRUE]
  /\ taken' = [taken EXCEPT !["M"] = @ + IF Due("M", now["M"]) THEN 1 ELSE 0]
  /\ prev' = [prev EXCEPT !["M"] = IF Due("M", now["M"]) THEN now["M"] ELSE @]
  /\ log' = [log EXCEPT !["M"] = Append(@, now["M"])]
  /\ UNCHANGED <<alive, now, born>>

Stop == /\ run /\ run' = FALSE /\ \A t \in Thr : ~watched[t]
        /\ watched' = [watched EXCEPT !["M"] = FALSE]
        /\ UNCHANGED <<alive, now, prev, taken, log, born>>

Next == \/ \E t \in Threads, d \in 0..(Interval + 1) : now[t] + d <= MaxTime /\ Event(t, d)
        \/ \E t \in Thr : (born < MaxThreads /\ \E s \in 0..(Interval + 1) : Spawn(t, s)) \/ End(t)
        \/ Start \/ Stop
Spec == Init /\ [][Next]_vars

(* What the property says about the history of one thread alone.                 *)
RECURSIVE Greedy(_, _, _)
Greedy(s, p, n) == IF s = <<>> THEN <<p, n>>
                   ELSE IF Head(s) - p >= Interval THEN Greedy(Tail(s), Head(s), n + 1)
                   ELSE Greedy(Tail(s), p, n)
OwnHistory == \A t \in Threads : <<prev[t], taken[t]>> = Greedy(log[t], 0, 0)
NotTooOften == \A t \in Threads : taken[t] * Interval <= now[t]
Independent == [][\A t, u \in Threads : t # u /\ now[t] # now'[t] => taken[u] = taken'[u] /\ prev[u] = prev'[u]]_vars
Short == \A t \in Threads : Len(log[t]) <= 3
=============================================================================
