------------------------------- MODULE WireGen --------------------------------
(* Scenarios: the sizes of the messages, the portions they are delivered in and   *)
(* where the connection ends.                                                     *)
EXTENDS Wire, Json, IOUtils
VARIABLE op
Depth == JsonDeserialize(IOEnv.MODE).depth
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
A(x, act) == act /\ op' = Append(op, x)
GInit == Init /\ op = <<>>
Left == Total - there
GNext == \/ \E b \in Pick({1, 5, 60, 300, 5000, 70000, 400000}) : \/ Left = 0 /\ A(<<"send", b>>, Send(b))
                                                                  \/ RandomElement(1..3) = 1 /\ A(<<"send", b>>, Send(b))
         \/ Left > 0 /\ \E n \in Pick({1, 2, 3, 4, 5, 6, 7, 20, 1000, 100000, Left}) :
                A(<<"deliver", IF n > Left THEN Left ELSE n>>, Deliver(IF n > Left THEN Left ELSE n))
         \/ Left > 0 /\ \E n \in Pick({1, 2, 3, 4, 5, 6, 7, 20, 1000, 100000, Left}) :
                A(<<"deliver", IF n > Left THEN Left ELSE n>>, Deliver(IF n > Left THEN Left ELSE n))
         \/ Len(op) = Depth - 1 /\ A(<<"end">>, End)
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
