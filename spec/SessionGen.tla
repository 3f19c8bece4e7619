------------------------------ MODULE SessionGen ------------------------------
EXTENDS Session, Json, IOUtils
VARIABLE op
Mode == JsonDeserialize(IOEnv.MODE)
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Some(n) == RandomElement(1..n) = 1
A(x, act) == act /\ op' = Append(op, x)
GInit == Init /\ kind = Mode.kind /\ op = <<>>
GNext == \/ \E d \in Pick({<<0, 1>>, <<1, 1>>, <<5, 7>>, <<0, 30>>, <<400, 1300>>}) : A(<<"tick", d[1], d[2]>>, Tick(d[1], d[2]))
         \/ \E p \in Pick(Paths), d \in Pick({0, 1, 3, 20}) : A(<<"work", p, d>>, Work(p, d))
         \/ \E p \in Pick(Paths), d \in Pick({0, 1, 3, 20}) : A(<<"work", p, d>>, Work(p, d))
         \/ (Some(2) \/ sess = 0) /\ A(<<"start">>, IF running THEN Refused ELSE Start)
         \/ Some(8) /\ ~running /\ A(<<"failstart">>, FailedStart)
         \/ Some(3) /\ A(<<"stop">>, IF running THEN Stop ELSE Refused)
         \/ A(<<"result">>, UNCHANGED vars)
         \/ Some(3) /\ A(<<RandomElement({"file", "view", "viewcmd"}), RandomElement(0..5)>>, UNCHANGED vars)
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Mode.depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
