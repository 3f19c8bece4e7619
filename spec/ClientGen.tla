------------------------------- MODULE ClientGen ------------------------------
EXTENDS Client, Json, IOUtils
VARIABLE op
Depth == JsonDeserialize(IOEnv.MODE).depth
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Some(n) == RandomElement(1..n) = 1
A(x, act) == act /\ op' = Append(op, x)
GInit == Init /\ op = <<<<"init", family, net>>>>
GNext == \/ phase = "timer" /\ A(<<"fire">>, Attempt)
         \/ A(<<"settle">>, Settle)
         \/ Some(3) /\ \E n \in Pick(Nets) : A(<<"become", n>>, Become(n))
         \/ net # "up" /\ A(<<"become", "up">>, Become("up"))
         \/ A(<<"accept">>, Accept)
         \/ Some(4) /\ \E how \in Pick({"close", "reset", "cut"}) : A(<<"lose", how>>, Lose)
         \/ \E m \in Pick({WELCOME, count + 1, count + 2} \cup Kinds) : A(<<"send", IF m > 0 THEN count + 1 ELSE m>>, Send(IF m > 0 THEN count + 1 ELSE m))
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
