------------------------------- MODULE ServerGen ------------------------------
(* Schedules.  "go" lets one of the tasks that are sending go on.                 *)
EXTENDS Server, Json, IOUtils
VARIABLE op
Depth == JsonDeserialize(IOEnv.MODE).depth
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Some(n) == RandomElement(1..n) = 1
A(x, act) == act /\ op' = Append(op, x)
GInit == Init /\ op = <<>>
New == {c \in Client : st[c] = "new"}
Fresh == {c \in In : op[Len(op)] = <<"connect", c>>}
GNext == \/ New # {} /\ (Some(3) \/ In = {}) /\ LET c == CHOOSE x \in New : \A y \in New : x <= y IN A(<<"connect", c>>, Connect(c))
         \/ In # {} /\ \E c \in Pick(In), e \in Pick(1..7) : Some(6) /\ A(<<"break", c, e>>, Break(c))
         \/ Fresh # {} /\ \E c \in Fresh, e \in Pick({1, 2, 5, 6}) : A(<<"break", c, e>>, Break(c))
         \/ In # {} /\ \E c \in Pick(In) : Some(5) /\ A(<<"leave", c>>, Leave(c))
         \/ Some(20) /\ A(<<"hinder">>, Hinder)
         \/ Some(2) /\ A(<<"cycle">>, Cycle)
         \/ \E c \in Client, k \in Pick(0..5) : A(<<"go", k>>, Greeting(c) \/ Broadcast(c))
         \/ A(<<"go", 0>>, Resume)
         \/ A(<<"cycle">>, UNCHANGED vars)
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
