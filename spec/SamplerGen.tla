------------------------------ MODULE SamplerGen ------------------------------
EXTENDS Sampler, Json, IOUtils
VARIABLES op, mark
A(x, act) == act /\ op' = Append(op, x)
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Depth == 60
GInit == Init /\ op = <<>> /\ mark = RandomElement(1..1000000)
GEvent == \E t \in Threads, d \in Pick({0, 1, Interval - 1, Interval, Interval + 1, 2 * Interval}), how \in Pick({"py", "c", "deep"}) :
            A(<<"event", t, d, how>>, Event(t, d))
GBurst == \E t \in Threads, d \in Pick({Interval, Interval + 1, 3 * Interval}), n \in Pick({1, 2, 7}) : A(<<"burst", t, d, n>>, Burst(t, d, n))
GSpawn(t) == \E s \in Pick({0, 0, 1, Interval - 1, Interval, 2 * Interval, 2 * Interval + 1}) : A(<<"spawn", t, s>>, Spawn(t, s))
(* starting into used CPU time: a thread that works before its first event      *)
GNext == (\/ GEvent \/ GEvent \/ GBurst
          \/ \E t \in Thr : GSpawn(t) \/ A(<<"end", t>>, End(t))
          \/ A(<<"start">>, Start) \/ A(<<"stop">>, Stop)) /\ mark' = RandomElement(1..1000000)
GSpec == GInit /\ [][GNext]_<<vars, op, mark>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
