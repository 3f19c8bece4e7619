------------------------------ MODULE OneShotGen ------------------------------
(* Programs and the ways to run them; the specification says what they do.        *)
EXTENDS OneShot, Json, IOUtils
VARIABLE op
Mode == JsonDeserialize(IOEnv.MODE)
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
One(n) == RandomElement(1..n) = 1
Sees == {"argv", "name", "file", "main", "own", "sibling", "names", "spec", "text", "chdir", "print", "err", "read", "burn", "global"}
Do(o) == /\ phase = "running" /\ op' = Append(op, o) /\ UNCHANGED <<phase, reps, whole, traceback, given, on, ending>>
         /\ prog' = <<>> /\ done' = <<>>
         /\ CASE o[1] \in {"call", "try"} -> stack' = Append(stack, <<o[2], o[1] = "try">>) /\ calls' = Called(o[2])
              [] o[1] = "ret" -> stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED calls
              [] o[1] = "raise" -> stack' = SubSeq(stack, 1, Top(Guards) - 1) /\ UNCHANGED calls
              [] OTHER -> UNCHANGED <<stack, calls>>
GInit == Init /\ op = <<>>
GNext == \/ phase = "new" /\ Begin(<<>>, 1) /\ UNCHANGED op
         \/ \E f \in Pick(Fn), c \in Pick({"call", "call", "try"}) : Len(stack) < 6 /\ Do(<<c, f>>)
         \/ \E f \in Pick(Fn), c \in Pick({"call", "try"}) : Len(stack) < 6 /\ Do(<<c, f>>)
         \/ stack # <<>> /\ Do(<<"ret", 0>>)
         \/ stack # <<>> /\ Guards # {} /\ Do(<<"raise", 0>>)
         \/ \E s \in Pick(Sees) : Do(<<"see", s>>)
         \/ \E s \in Pick(Sees) : Do(<<"see", s>>)
GSpec == GInit /\ [][GNext]_<<vars, op>>
Dump == Len(op') = Mode.depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
