------------------------------ MODULE CallTree ------------------------------
(* A profiled program: threads call, leave, resume generators, let time pass;  *)
(* a tracing profiler records calls and times per call path, a sampling        *)
(* profiler records the call path at each sample.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fn,      \* plain functions
          GFn,     \* generator functions
          Thr,     \* threads other than the main thread "M"
          MaxDepth, MaxTime, MaxSess, MaxCalls

Threads == Thr \cup {"M"}
Root(t) == IF t = "M" THEN "M" ELSE "T"   \* label of the outermost function

VARIABLES
  stack,   \* Threads -> sequence of activations, <<>> if not alive
  cur,     \* the thread that executes
  gens,    \* generator id -> [fn, id, state: "ready", "active", "done"]
  nextid,  \* next frame id
  now,     \* Threads -> clock reading of the thread, without profiling overhead
  cpu,     \* clock of the process, without profiling overhead
  kind,    \* "tracing" or "sampling"
  timer,   \* "cpu": the process clock, "thread": the clock of each thread
  run, sess, \* profiler state; number of the session
  owner,   \* thread that started the session
  cfg,     \* [baseid, bcode, ign, ignact] of the session
  hooked,  \* Threads -> session whose events the thread reports, 0 if none
  calls, time, \* path -> own hits / completed time
  roothits,  \* samples without a function of the program that is not ignored
  anc,     \* paths below which the profiler itself may have been seen at work
  begin, total \* process clock at the start; CPU time of the session
vars == <<stack, cur, gens, nextid, now, cpu, kind, timer, run, sess, owner, cfg, hooked, calls, time, roothits, anc, begin, total>>
prog == <<stack, cur, gens, nextid, now, cpu>>
rec == <<calls, time, roothits, anc>>
ses == <<kind, timer, run, sess, owner, cfg, hooked, begin, total>>

Top(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Names(s) == [i \in 1..Len(s) |-> s[i].fn]
S == stack[cur]

NoCfg == [baseid |-> 0, bcode |-> "", ign |-> {}, ignact |-> {}]

InitWith(k, tm) ==
  /\ stack = [t \in Threads |-> IF t = "M" THEN <<[fn |-> "M", id |-> 1, sess |-> 0, at |-> 0, g |-> 0]>> ELSE <<>>]
  /\ cur = "M" /\ gens = <<>> /\ nextid = 2
  /\ now = [t \in Threads |-> 0] /\ cpu = 0
  /\ kind = k /\ timer = tm
  /\ run = FALSE /\ sess = 0 /\ owner = "M" /\ cfg = NoCfg
  /\ hooked = [t \in Threads |-> 0]
  /\ calls = <<>> /\ time = <<>> /\ roothits = 0 /\ anc = {} /\ begin = 0 /\ total = 0

Init == \E k \in {"tracing", "sampling"}, tm \in {"cpu", "thread"} : (k = "sampling" => tm = "cpu") /\ InitWith(k, tm)

(* ---- call paths ---------------------------------------------------------- *)

IsBase(c, a) == a.id = c.baseid \/ a.fn = c.bcode
IsIgn(c, a) == a.fn \in c.ign \/ a.id \in c.ignact

(* The frame stack: what is above the nearest base, without what is ignored.  *)
LastBase(c, s) == LET B == {i \in 1..Len(s) : IsBase(c, s[i])} IN
                  IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i
Outside == [fn |-> "*", id |-> 0]   \* what called the program; shown unless there is a base
FrameStack(c, s) == (IF LastBase(c, s) = 0 THEN <<Outside>> ELSE <<>>) \o
                    SelectSeq(SubSeq(s, LastBase(c, s) + 1, Len(s)), LAMBDA a : ~IsIgn(c, a))

(* The path a call of the topmost activation is recorded at; a call of the    *)
(* base itself is its own outermost function.                                 *)
CallPath(c, s) == IF IsBase(c, Top(s)) THEN <<Top(s).fn>> ELSE Names(FrameStack(c, s))
(* The path a sample of it counts for.                                         *)
SamplePath(c, s) == IF IsIgn(c, Top(s)) THEN Names(FrameStack(c, s)) ELSE CallPath(c, s)

(* A configuration given by positions in the current stack: base 0 is none,    *)
(* -1 the outermost function of the main thread.                               *)
CfgOf(base, bcode, ign, ignpos) ==
  [baseid |-> IF base > 0 THEN S[base].id ELSE IF base = 0 THEN 0 ELSE 1, bcode |-> bcode,
   ign |-> ign, ignact |-> {S[i].id : i \in ignpos}]

Get(m, p) == IF p \in DOMAIN m THEN m[p] ELSE 0
Plus(m, p, n) == (p :> (Get(m, p) + n)) @@ m
Prefixes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}

Clock(t) == IF timer = "cpu" THEN cpu ELSE now[t]
Reporting(t) == kind = "tracing" /\ run /\ hooked[t] = sess
Seen(c, s) == Prefixes(Names(FrameStack(c, s)))

(* ---- the program ----------------------------------------------------------- *)

NewAct(f, g) == [fn |-> f, id |-> IF g = 0 THEN nextid ELSE gens[g].id, sess |-> IF Reporting(cur) THEN sess ELSE 0, at |-> Clock(cur), g |-> g]

Enter(f, g) ==
  LET s == Append(S, NewAct(f, g)) IN
  /\ stack' = [stack EXCEPT ![cur] = s] /\ nextid' = nextid + 1
  /\ calls' = IF Reporting(cur) /\ ~IsIgn(cfg, Top(s)) THEN Plus(calls, CallPath(cfg, s), 1) ELSE calls
  /\ UNCHANGED <<cur, now, cpu, time, roothits, anc>> /\ UNCHANGED ses

(* Leaving the n topmost activations, innermost first.                          *)
RECURSIVE TimeAfter(_, _, _)
TimeAfter(m, s, n) ==
  IF n = 0 THEN m
  ELSE LET a == Top(s)
           m2 == IF Reporting(cur) /\ a.sess = sess /\ ~IsIgn(cfg, a)
                 THEN Plus(m, CallPath(cfg, s), Clock(cur) - a.at) ELSE m IN
       TimeAfter(m2, Front(s), n - 1)

(* A call event of an ancestor's frame leaves the void ancestors of its path.    *)
Leave(n, g2) ==
  /\ Len(S) > n
  /\ stack' = [stack EXCEPT ![cur] = SubSeq(S, 1, Len(S) - n)]
  /\ time' = TimeAfter(time, S, n)
  /\ anc' = IF Reporting(cur) THEN anc \cup UNION {Seen(cfg, SubSeq(S, 1, Len(S) - i)) : i \in 0..(n - 1)} ELSE anc
  /\ gens' = [g \in DOMAIN gens |-> IF \E i \in (Len(S) - n + 1)..Len(S) : S[i].g = g
                                    THEN [gens[g] EXCEPT !.state = g2] ELSE gens[g]]
  /\ UNCHANGED <<cur, nextid, now, cpu, calls, roothits>> /\ UNCHANGED ses

Call(f) == f \in Fn /\ Enter(f, 0) /\ UNCHANGED gens
Return == Leave(1, "done")
Raise(n) == Leave(n, "done")
(* All resumptions of a generator execute the same frame.                        *)
NewGen(g, f) == /\ g \notin DOMAIN gens
                /\ gens' = (g :> [fn |-> f, state |-> "ready", id |-> nextid]) @@ gens
                /\ nextid' = nextid + 1
                /\ UNCHANGED <<stack, cur, now, cpu>> /\ UNCHANGED rec /\ UNCHANGED ses
Resume(g) == /\ g \in DOMAIN gens /\ gens[g].state = "ready"
             /\ Enter(gens[g].fn, g) /\ gens' = [gens EXCEPT ![g].state = "active"]
Yield == Top(S).g # 0 /\ Leave(1, "ready")

Tick(d) == /\ now' = [now EXCEPT ![cur] = @ + d] /\ cpu' = cpu + d
           /\ UNCHANGED <<stack, cur, gens, nextid>> /\ UNCHANGED rec /\ UNCHANGED ses

Builtin == UNCHANGED vars

(* A thread begins: it reports if it was started while profiling.                *)
Spawn(t) ==
  /\ stack[t] = <<>>
  /\ LET h == IF run /\ kind = "tracing" THEN sess ELSE 0
         s == <<[fn |-> "T", id |-> nextid, sess |-> h, at |-> Clock(t), g |-> 0]>> IN
     /\ stack' = [stack EXCEPT ![t] = s] /\ nextid' = nextid + 1
     /\ hooked' = [hooked EXCEPT ![t] = h]
     /\ calls' = IF h # 0 /\ ~IsIgn(cfg, Top(s)) THEN Plus(calls, CallPath(cfg, s), 1) ELSE calls
     /\ anc' = IF Reporting(cur) THEN anc \cup Seen(cfg, S) ELSE anc
  /\ UNCHANGED <<cur, gens, now, cpu, time, roothits, kind, timer, run, sess, owner, cfg, begin, total>>

Switch(t) == /\ t # cur /\ stack[t] # <<>> /\ cur' = t
             /\ UNCHANGED <<stack, gens, nextid, now, cpu>> /\ UNCHANGED rec /\ UNCHANGED ses

(* Another thread ends and is joined.                                              *)
Join(t) ==
  /\ t # cur /\ t # "M" /\ Len(stack[t]) = 1
  /\ stack' = [stack EXCEPT ![t] = <<>>] /\ hooked' = [hooked EXCEPT ![t] = 0]
  /\ now' = [now EXCEPT ![t] = 0]
  /\ LET a == stack[t][1] IN
     time' = IF run /\ hooked[t] = sess /\ kind = "tracing" /\ a.sess = sess /\ ~IsIgn(cfg, a)
             THEN Plus(time, CallPath(cfg, stack[t]), Clock(t) - a.at) ELSE time
  /\ anc' = IF run THEN anc \cup Seen(cfg, S) \cup Seen(cfg, stack[t]) ELSE anc
  /\ UNCHANGED <<cur, gens, nextid, cpu, calls, roothits, kind, timer, run, sess, owner, cfg, begin, total>>

(* ---- the profiler ------------------------------------------------------------ *)

Start(c) ==
  /\ ~run /\ \A t \in Threads : hooked[t] = 0
  /\ kind = "sampling" => cur = "M"   \* signals are handled there
  /\ run' = TRUE /\ sess' = sess + 1 /\ owner' = cur /\ cfg' = c
  /\ hooked' = [hooked EXCEPT ![cur] = IF kind = "tracing" THEN sess + 1 ELSE 0]
  /\ calls' = <<>> /\ time' = <<>> /\ roothits' = 0 /\ anc' = Seen(c, S)
  /\ begin' = cpu /\ total' = 0
  /\ UNCHANGED <<kind, timer>> /\ UNCHANGED prog

Stop ==
  /\ run /\ cur = owner
  /\ run' = FALSE /\ total' = cpu - begin
  /\ hooked' = [hooked EXCEPT ![cur] = 0]
  /\ anc' = anc \cup Seen(cfg, S)
  /\ UNCHANGED <<kind, timer, sess, owner, cfg, begin, calls, time, roothits>> /\ UNCHANGED prog

Sample ==
  /\ run /\ kind = "sampling"
  /\ LET p == SamplePath(cfg, S) IN
     IF p \in {<<>>, <<"*">>} THEN roothits' = roothits + 1 /\ UNCHANGED calls
     ELSE calls' = Plus(calls, p, 1) /\ UNCHANGED roothits
  /\ UNCHANGED <<time, anc>> /\ UNCHANGED ses /\ UNCHANGED prog

(* ---- what a result shows -------------------------------------------------------- *)

Recorded == {p \in DOMAIN calls : calls[p] > 0}
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
(* An ancestor that was not itself recorded has the time of the nearest recorded *)
(* nodes below it.                                                                *)
Nearest(p) == {q \in Recorded : Below(p, q) /\ ~\E r \in Recorded : Below(p, r) /\ Below(r, q)}
RECURSIVE SumTime(_)
SumTime(Q) == IF Q = {} THEN 0 ELSE LET q == CHOOSE x \in Q : TRUE IN Get(time, q) + SumTime(Q \ {q})
NodeTime(p) == IF p \in Recorded THEN Get(time, p) ELSE SumTime(Nearest(p))
Ancestors == UNION {Prefixes(p) : p \in Recorded}
CpuTime == IF run THEN cpu - begin ELSE total

(* ---- model ------------------------------------------------------------------------ *)

Cfgs == {[NoCfg EXCEPT !.baseid = b] : b \in {0, 1} \cup {S[i].id : i \in 1..Len(S)}}
        \cup {[NoCfg EXCEPT !.bcode = f] : f \in {"T"} \cup Fn}
        \cup {[NoCfg EXCEPT !.baseid = 1, !.ign = {f}] : f \in Fn}
        \cup {[NoCfg EXCEPT !.baseid = 1, !.ignact = {S[i].id}] : i \in 1..Len(S)}

Next == \/ \E f \in Fn : Len(S) <= MaxDepth /\ Call(f)
        \/ \E n \in 1..MaxDepth : Raise(n)
        \/ \E g \in 1..1, f \in GFn : NewGen(g, f)
        \/ \E g \in DOMAIN gens : Len(S) <= MaxDepth /\ Resume(g)
        \/ (Len(S) > 0 /\ Yield)
        \/ Tick(1)
        \/ \E t \in Thr : Spawn(t) \/ Join(t)
        \/ \E t \in Threads : Switch(t)
        \/ \E c \in Cfgs : Start(c)
        \/ Stop \/ Sample
Spec == Init /\ [][Next]_vars

RECURSIVE SumCalls(_)
SumCalls(Q) == IF Q = {} THEN 0 ELSE LET q == CHOOSE x \in Q : TRUE IN calls[q] + SumCalls(Q \ {q})

NoNegativeTime == \A p \in DOMAIN time : time[p] >= 0
TimeNeedsCalls == \A p \in DOMAIN time : p \in Recorded
IgnoredAbsent == sess > 0 => \A p \in Recorded : \A i \in 1..Len(p) : p[i] \notin cfg.ign
BaseAbsent == sess > 0 /\ cfg.bcode # "" => \A p \in Recorded : \A i \in 1..Len(p) : p[i] = cfg.bcode => (i = 1 /\ Len(p) = 1)
TotalHits == roothits + SumCalls(DOMAIN calls)
Bound == cpu <= MaxTime /\ sess <= MaxSess /\ nextid <= MaxCalls /\ (kind = "sampling" => TotalHits <= 2)
(* every sample counts exactly once, whatever is ignored                        *)
SampleCounts == [][kind = "sampling" /\ run /\ run' /\ <<calls, roothits>> # <<calls', roothits'>> => TotalHits' = TotalHits + 1]_vars
OnlyWhileRunning == [][~run /\ ~run' => UNCHANGED <<calls, time, roothits>>]_vars
StackDiscipline == \A t \in Threads : stack[t] # <<>> => stack[t][1].fn = Root(t)
=============================================================================
