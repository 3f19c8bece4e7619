---------------------------- MODULE BackgroundGen -----------------------------
EXTENDS Background, Json, IOUtils
VARIABLE op
Depth == JsonDeserialize(IOEnv.MODE).depth
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
A(x, act) == act /\ op' = Append(op, x)
GInit == Init /\ op = <<>>
GNext == \/ \E o \in Pick({"start", "stop"}), by \in Pick({"one", "two", "one", "main"}) : A(<<o, by>>, Whole(o))
         \/ \E by \in Pick({"one", "two"}) : on /\ A(<<"stop", by>>, Whole("stop"))
         \/ RandomElement(1..6) = 1 /\ A(<<"break">>, Break)
         \/ RandomElement(1..3) = 1 /\ A(<<"work">>, UNCHANGED vars)
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
