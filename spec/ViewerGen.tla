------------------------------- MODULE ViewerGen ------------------------------
(* Random histories of the viewer over the trees of $MODE.                       *)
EXTENDS Viewer, Json, IOUtils
VARIABLES op, group
Mode == JsonDeserialize(IOEnv.MODE)
Depth == Mode.depth
Tree(ns) == [p \in {ns[i].p : i \in 1..Len(ns)} |-> LET n == ns[CHOOSE i \in 1..Len(ns) : ns[i].p = p] IN [h |-> n.h, t |-> n.t]]
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Some(n) == RandomElement(1..n) = 1
A(x, w) == v' = w /\ UNCHANGED <<res, rank, group>> /\ op' = Append(op, x)
GInit == /\ group \in 1..Len(Mode.groups)
         /\ res = [r \in 1..Len(Mode.groups[group].results) |-> Tree(Mode.groups[group].results[r])]
         /\ rank = Mode.groups[group].rank
         /\ v = Start /\ op = <<<<"group", group>>>>
Kinds == {"base", "tracing", "sampling"}
Moves == {"right", "left", "down", "up", ">", "+"}
KeyOp(k) == A(<<"key", k>>, Press(v, k, Rows(v), IF Shown(v) = 0 THEN <<>> ELSE Hot(v, v.focus), v.focus))
GNext == \/ (v.final = 0 \/ Some(2)) /\ \E r \in Pick(1..Len(res)) : A(<<"result", r>>, GetResult(v, r))
         \/ Some(6) /\ \E b \in Pick(BOOLEAN) : A(<<"active", b>>, SetActive(v, b))
         \/ (v.kind = "base" \/ Some(25)) /\ \E k \in Pick(Kinds) : A(<<"kind", k>>, SetKind(v, k))
         \/ \E k \in Pick(Moves) : KeyOp(k)
         \/ \E k \in Pick(Moves) : KeyOp(k)
         \/ Some(2) /\ \E k \in Pick(Moves) : KeyOp(k)
         \/ Some(2) /\ \E k \in Pick({"]", "["}) : KeyOp(k)
         \/ Some(4) /\ \E k \in Pick({"\\", "esc", "-", "space", "enter"}) : KeyOp(k)
         \/ Some(9) /\ \E k \in Pick({"x", "home", "end", "page up", "page down", "tab"}) : KeyOp(k)
         \/ Some(6) /\ IF v.paused THEN A(<<"resume">>, Resume(v)) ELSE A(<<"pause">>, Pause(v))
GSpec == GInit /\ [][GNext]_<<vars, op, group>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
