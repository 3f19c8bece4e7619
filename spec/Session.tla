-------------------------------- MODULE Session --------------------------------
(* What a result of a profiler covers: the work since the latest start and the   *)
(* times from that start to the stop (or to now).  A start that fails begins an  *)
(* empty session that ends at once; a refused start or stop changes nothing.     *)
(*                                                                               *)
(* since and passed are what the property is about: the works of the session and *)
(* the time that passed in it.  rec and the stamps are how a profiler can know.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fn, MaxDepth, MaxWork, MaxTime, MaxSess

NONE == -1
Paths == UNION {[1..n -> Fn] : n \in 1..MaxDepth}
Prefixes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}
IsPrefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))

VARIABLES
  kind,      \* "tracing" or "sampling"
  cpu, wall, \* clocks
  running,
  rec,       \* path -> <<own hits, inclusive time>>, of the recorded paths
  begun,     \* <<cpu, wall>> of the latest start, <<>> if none
  ended,     \* <<cpu, wall>> of its end, <<>> if none
  since,     \* works of the session: <<path, time>>
  passed,    \* <<cpu, wall>> that passed in the session
  sess
vars == <<kind, cpu, wall, running, rec, begun, ended, since, passed, sess>>

Init == /\ kind \in {"tracing", "sampling"}
        /\ cpu = 0 /\ wall = 0 /\ running = FALSE
        /\ rec = <<>> /\ begun = <<>> /\ ended = <<>>
        /\ since = <<>> /\ passed = <<0, 0>> /\ sess = 0

Pass(c, w) == /\ cpu' = cpu + c /\ wall' = wall + w
              /\ passed' = IF running THEN <<passed[1] + c, passed[2] + w>> ELSE passed

Tick(c, w) == Pass(c, w) /\ UNCHANGED <<kind, running, rec, begun, ended, since, sess>>

(* A call path is executed once and spends d in its last function.               *)
Hit(r, p) == IF p \in DOMAIN r THEN r[p] ELSE <<0, 0>>
Recorded(r, p, d) ==
  [q \in DOMAIN r \cup Prefixes(p) |->
     IF kind = "tracing"
     THEN IF q \in Prefixes(p) THEN <<Hit(r, q)[1] + 1, Hit(r, q)[2] + d>> ELSE r[q]
     ELSE IF q = p THEN <<Hit(r, q)[1] + 1, 0>> ELSE Hit(r, q)]
Work(p, d) == /\ Pass(d, d)
              /\ rec' = IF running THEN Recorded(rec, p, d) ELSE rec
              /\ since' = IF running THEN Append(since, <<p, d>>) ELSE since
              /\ UNCHANGED <<kind, running, begun, ended, sess>>

Fresh == /\ rec' = <<>> /\ begun' = <<cpu, wall>> /\ since' = <<>> /\ passed' = <<0, 0>>
         /\ sess' = sess + 1 /\ UNCHANGED <<kind, cpu, wall>>
Start == ~running /\ running' = TRUE /\ ended' = <<>> /\ Fresh
FailedStart == ~running /\ running' = FALSE /\ ended' = <<cpu, wall>> /\ Fresh
Stop == running /\ running' = FALSE /\ ended' = <<cpu, wall>>
        /\ UNCHANGED <<kind, cpu, wall, rec, begun, since, passed, sess>>
Refused == UNCHANGED vars

(* What result() tells.                                                          *)
End == IF ended = <<>> THEN <<cpu, wall>> ELSE ended
CpuTime == IF begun = <<>> THEN 0 ELSE End[1] - begun[1]
WallTime == IF begun = <<>> THEN 0 ELSE End[2] - begun[2]
DeepHits(p) == LET D == {q \in DOMAIN rec : IsPrefix(p, q)}
                   F[S \in SUBSET D] == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN rec[x][1] + F[S \ {x}]
               IN F[D]

Next == \/ \E c, w \in 0..1 : Tick(c, w)
        \/ \E p \in Paths, d \in 0..1 : Work(p, d)
        \/ Start \/ FailedStart \/ Stop
Spec == Init /\ [][Next]_vars
Bound == Len(since) <= MaxWork /\ cpu <= MaxTime /\ wall <= MaxTime /\ sess <= MaxSess

(* The result holds exactly the works of the session.                            *)
Works(p) == {i \in 1..Len(since) : IF kind = "tracing" THEN IsPrefix(p, since[i][1]) ELSE since[i][1] = p}
SumTime(S) == LET F[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET i == CHOOSE j \in T : TRUE IN since[i][2] + F[T \ {i}] IN F[S]
CoversSession ==
  /\ DOMAIN rec = UNION {Prefixes(since[i][1]) : i \in 1..Len(since)}
  /\ \A p \in DOMAIN rec : /\ rec[p][1] = Cardinality(Works(p))
                           /\ kind = "tracing" => rec[p][2] = SumTime(Works(p))
  /\ CpuTime = passed[1] /\ WallTime = passed[2]
(* After the stop nothing changes the result but a start.                        *)
Stable == [][~running /\ sess' = sess => <<rec', CpuTime', WallTime'>> = <<rec, CpuTime, WallTime>>]_vars
=============================================================================
