------------------------------ MODULE RemoteGen ------------------------------
(* What programs and clients do.                                                  *)
EXTENDS Remote, Json, IOUtils
VARIABLE op
Paths == {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<1, 3, 2>>, <<3, 3>>}
Mode == JsonDeserialize(IOEnv.MODE)
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Some(n) == RandomElement(IF op = <<>> THEN 1..n ELSE 1..n) = 1
Sees == {"argv", "name", "main", "cwd", "print", "read", "global", "sleep", "own", "env", "thread", "child"}
A(x, act) == act /\ op' = Append(op, x)
GInit == Init /\ op = <<>>
GNext == \/ \E p \in Pick(Path) : A(<<"work", p>>, Work(p))
         \/ A(<<"rest">>, Rest)
         \/ conn # {} /\ cur # <<>> /\ A(<<"look">>, UNCHANGED vars)
         \/ conn # {} /\ Some(2) /\ A(<<"on">>, UNCHANGED vars)
         \/ conn = {} /\ ~Live /\ Some(2) /\ A(<<"off">>, UNCHANGED vars)
         \/ \E s \in Pick(Sees) : A(<<"see", s>>, UNCHANGED vars)
         \/ \E n \in Pick({1, 20, 20, 100000}) : Some(2) /\ A(<<"err", n>>, Err)
         \/ \E c \in Pick(Client), k \in Pick({"raw", "raw", "raw", "view"}) : A(<<"connect", c, k>>, Connect(c))
         \/ \E c \in Pick(Client), k \in Pick({"close", "reset", "half"}) : A(<<"leave", c, k>>, Leave(c))
         \/ ~Live /\ Some(6) /\ A(<<"hasty">>, UNCHANGED vars)
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Mode.depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
