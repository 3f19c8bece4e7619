------------------------------- MODULE TimersGen -------------------------------
EXTENDS Timers, Json, IOUtils
VARIABLE op
Depth == JsonDeserialize(IOEnv.MODE).depth
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
A(x, act) == act /\ op' = Append(op, x)
GInit == Init /\ op = <<>>
GNext == \/ \E d \in Pick({1, 2, 5, 30}) : A(<<"tick", d>>, Tick(d))
         \/ Ctx # {} /\ \E c \in Pick(Ctx) : \/ A(<<"pause", c>>, Pause(c))
                                             \/ A(<<"resume", c>>, Resume(c))
                                             \/ A(<<"read", c>>, UNCHANGED vars)
         \/ Gr # {} /\ (\/ \E g \in Gr : A(<<"spawn", g>>, Spawn(g))
                        \/ \E g \in Gr : (RandomElement(1..6) = 1 /\ A(<<"kill", g>>, Kill(g)))
                        \/ \E g \in Greenlets : A(<<"switch", g>>, Switch(g))
                        \/ (RandomElement(1..4) = 1 /\ A(<<"finish">>, Finish))
                        \/ (RandomElement(1..3) = 1 /\ A(<<"start">>, Start))
                        \/ (RandomElement(1..6) = 1 /\ A(<<"stop">>, Stop))
                        \/ A(<<"gread">>, UNCHANGED vars))
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
