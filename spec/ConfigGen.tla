------------------------------- MODULE ConfigGen ------------------------------
EXTENDS Config, Json, IOUtils
VARIABLE op
Depth == JsonDeserialize(IOEnv.MODE).depth
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
One(n) == RandomElement(1..n) = 1
A(x, act) == act /\ op' = Append(op, x)
Raw(o, bad) == IF One(5) THEN {""} ELSE IF One(10) /\ bad # {} THEN bad ELSE Good(o)
(* Options of profile alone are written often, those of a server less so.          *)
Often(x) == IF One(2) THEN Profilers ELSE Options
RunRaw(cmd, f) == A(<<"run", cmd, f, One(2)>>, Run(cmd, f, TRUE))
GInit == Init /\ op = <<>>
GNext == \/ \E file \in Pick({".profiling", "setup.cfg"}), o \in Pick(Often(op)) : \E v \in Pick(Raw(o, Bad[o])) :
              A(<<"write", file, o, v>>, Write(file, o, v))
         \/ \E cmd \in Pick({"profile", "timeit", "live", "remote", "view"}) :
              \E f \in Pick({[o \in Options |-> IF o \in Of(cmd) /\ One(4) THEN RandomElement(Raw(o, CliBad(o))) ELSE ""]}) : RunRaw(cmd, f)
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
