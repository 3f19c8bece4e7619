-------------------------------- MODULE Timers --------------------------------
(* Contextual timers.  A context is explicit (paused and resumed by hand) or a   *)
(* greenlet, which the timer pauses and resumes itself while it runs.            *)
(*                                                                               *)
(* ran[c] is what the property is about: the time context c was running.  The    *)
(* stamps are how a timer can know: the time when it was paused and, if it runs, *)
(* when it was resumed.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ctx,        \* explicit contexts
          Gr,         \* greenlets besides "main"
          MaxTime, MaxSess

NONE == -1
UNKNOWN == -1000000   \* did not run in this session yet
Greenlets == Gr \cup {"main"}

VARIABLES
  clock,
  running,   \* contexts that are running
  ran,       \* context -> time it was running
  at,        \* context -> <<paused, resumed>>
  alive,     \* greenlet -> its parent ("" if it does not exist)
  cur,       \* the running greenlet
  on,        \* the greenlet timer runs
  gran,      \* greenlet -> time it was running
  gat,       \* greenlet -> stamps of the timer
  gbase,     \* greenlet -> reading minus gran since it first ran in the session
  sess       \* number of sessions so far
cvars == <<running, ran, at>>
gvars == <<alive, cur, on, gran, gat, gbase, sess>>
vars == <<clock, cvars, gvars>>

Fresh == <<0, 0>>
Reading(s, now) == IF s[2] = NONE THEN s[1] ELSE s[1] + now - s[2]
Paused(s, now) == <<Reading(s, now), NONE>>
Resumed(s, now) == IF s[2] = NONE THEN <<s[1], now>> ELSE s

Init == /\ clock = 0
        /\ running = Ctx /\ ran = [c \in Ctx |-> 0] /\ at = [c \in Ctx |-> Fresh]
        /\ alive = [g \in Greenlets |-> IF g = "main" THEN "main" ELSE ""]
        /\ cur = "main" /\ on = FALSE
        /\ gran = [g \in Greenlets |-> 0] /\ gat = [g \in Greenlets |-> Fresh]
        /\ gbase = [g \in Greenlets |-> 0] /\ sess = 0

Tick(d) == /\ clock' = clock + d
           /\ ran' = [c \in Ctx |-> IF c \in running THEN ran[c] + d ELSE ran[c]]
           /\ gran' = [gran EXCEPT ![cur] = @ + d]
           /\ UNCHANGED <<running, at, alive, cur, on, gat, gbase, sess>>

Pause(c) == /\ running' = running \ {c} /\ at' = [at EXCEPT ![c] = Paused(@, clock)]
            /\ UNCHANGED <<clock, ran, gvars>>
Resume(c) == /\ running' = running \cup {c} /\ at' = [at EXCEPT ![c] = Resumed(@, clock)]
             /\ UNCHANGED <<clock, ran, gvars>>

(* What a greenlet reads, when it first runs in a session.                        *)
Known(st, now, g, base) == IF base[g] = UNKNOWN THEN [base EXCEPT ![g] = Reading(st[g], now) - gran[g]] ELSE base
NewBase == gbase' = IF on THEN Known(gat', clock, cur', gbase) ELSE gbase
(* The timer is told of every switch while it runs.                              *)
Switched(g, h) == IF on THEN [[gat EXCEPT ![g] = Paused(@, clock)] EXCEPT ![h] = Resumed(@, clock)] ELSE gat
Exists(g) == alive[g] # ""
Spawn(g) == /\ ~Exists(g) /\ g \in Gr /\ alive' = [alive EXCEPT ![g] = cur]
            /\ UNCHANGED <<clock, cvars, cur, on, gran, gat, gbase, sess>>
Switch(g) == /\ Exists(g) /\ g # cur /\ cur' = g /\ gat' = Switched(cur, g) /\ NewBase
             /\ UNCHANGED <<clock, cvars, alive, on, gran, sess>>
(* A greenlet that ends gives its parent the control.  A parent does not end      *)
(* before its children (PyPy's greenlets cannot do that).                         *)
Ends(g) == /\ \A h \in Greenlets : h # g => alive[h] # g
           /\ alive' = [alive EXCEPT ![g] = ""]
           /\ cur' = alive[g]
Finish == /\ cur # "main" /\ Ends(cur) /\ gat' = Switched(cur, cur') /\ NewBase
          /\ UNCHANGED <<clock, cvars, on, gran, sess>>
(* Kills another greenlet: it is switched to, ends, and its parent goes on.      *)
Kill(g) == /\ Exists(g) /\ g \notin {cur, "main"} /\ Ends(g)
           /\ gat' = IF on THEN [[gat EXCEPT ![cur] = Paused(@, clock)] EXCEPT ![cur'] =
                                   Resumed(IF cur' = cur THEN Paused(@, clock) ELSE @, clock)] ELSE gat
           /\ NewBase
           /\ UNCHANGED <<clock, cvars, on, gran, sess>>

(* A session begins with fresh stamps.                                           *)
Start == /\ ~on /\ on' = TRUE /\ sess' = sess + 1
         /\ gat' = [g \in Greenlets |-> Fresh]
         /\ gbase' = Known(gat', clock, cur, [g \in Greenlets |-> UNKNOWN])
         /\ UNCHANGED <<clock, cvars, alive, cur, gran>>
Stop == /\ on /\ on' = FALSE /\ UNCHANGED <<clock, cvars, alive, cur, gran, gat, gbase, sess>>

Next == \/ \E d \in 1..2 : Tick(d)
        \/ \E c \in Ctx : Pause(c) \/ Resume(c)
        \/ \E g \in Greenlets : Spawn(g) \/ Switch(g) \/ Kill(g)
        \/ Finish \/ Start \/ Stop
Spec == Init /\ [][Next]_vars
Bound == clock <= MaxTime /\ sess <= MaxSess

(* The stamps know the time a context was running.                               *)
Exact == \A c \in Ctx : Reading(at[c], clock) = ran[c]
(* What is read in the greenlet that runs, up to a constant of the session and    *)
(* the greenlet: the time it was running.                                        *)
CurrentExact == on => Reading(gat[cur], clock) - gran[cur] = gbase[cur]
Independent == [][\A c \in Ctx : at'[c] # at[c] => \A d \in Ctx \ {c} : Reading(at'[d], clock') = Reading(at[d], clock')]_vars
NeverBackwards == [][\A c \in Ctx : Reading(at'[c], clock') >= Reading(at[c], clock)]_vars
=============================================================================
