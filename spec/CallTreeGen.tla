----------------------------- MODULE CallTreeGen -----------------------------
(* Programs: random behaviours of CallTree (TLC -simulate), printed step by step. *)
EXTENDS CallTree, Json, IOUtils
VARIABLES op, mark
W == <<vars, op, mark>>
A(x, act) == act /\ op' = Append(op, x)
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Mode == JsonDeserialize(IOEnv.MODE)   \* [kind, timer, depth, inner]
GInit == InitWith(Mode.kind, Mode.timer) /\ op = <<>> /\ mark = RandomElement(1..1000000)
GStart == \E b \in Pick({0, -1} \cup (1..Len(S))), bc \in Pick({"T"} \cup Fn \cup GFn), ig \in Pick(SUBSET (Fn \cup GFn)),
             ia \in Pick(SUBSET (1..Len(S))), m \in Pick(IF Mode.inner THEN {6} ELSE 1..6), i \in Pick(1..Len(S)), fresh \in Pick(BOOLEAN) :
   LET c == CASE m = 1 -> <<-1, "", {}, {}>>
              [] m = 2 -> <<b, "", {}, {}>>
              [] m = 3 -> <<-1, "", ig, {}>>
              [] m = 4 -> <<0, bc, {}, ia>>
              [] m = 6 -> <<0, S[i].fn, {}, {}>>
              [] m = 5 -> <<b, bc, ig, ia>> IN
   A(<<"start", c[1], c[2], c[3], c[4], fresh>>, Start(CfgOf(c[1], c[2], c[3], c[4])))
GCall == Len(S) <= MaxDepth /\ \E f \in Pick(Fn), b \in Pick({"call", "call", "bcall"}) : A(<<b, f>>, Call(f))
GRet == Len(S) > 1 /\ A(<<"ret">>, Return)
GRaise == Len(S) > 1 /\ \E n \in Pick(1..(Len(S) - 1)) : A(<<"raise", n>>, Raise(n))
GGen == GFn # {} /\ \E f \in Pick(GFn) : A(<<"gen", Cardinality(DOMAIN gens) + 1, f>>, NewGen(Cardinality(DOMAIN gens) + 1, f))
GResume == Len(S) <= MaxDepth /\ \E g \in {x \in DOMAIN gens : gens[x].state = "ready"} : A(<<"resume", g>>, Resume(g))
GYield == A(<<"yield">>, Yield)
GTick == \E d \in Pick(1..9) : A(<<"tick", d>>, Tick(d))
GBuiltin == A(<<"builtin">>, UNCHANGED vars)
GSpawn == \E t \in Thr : A(<<"spawn", t>>, Spawn(t))
GJoin == \E t \in Thr : A(<<"join", t>>, Join(t))
GSwitch == \E t \in Threads : A(<<"switch", t>>, Switch(t))
GStop == A(<<"stop">>, Stop)
GSample == \E how \in Pick({"direct", "signal"}) : A(<<"sample", IF cur = "M" THEN how ELSE "direct">>, Sample)
GResult == sess > 0 /\ A(<<"result">>, UNCHANGED vars)
GNext == (\/ GCall \/ GCall \/ GCall \/ GRet \/ GRet \/ GRaise \/ GGen \/ GResume \/ GResume \/ GYield \/ GYield
          \/ GTick \/ GTick \/ GTick \/ GBuiltin \/ GSpawn \/ GJoin \/ GSwitch \/ GStart \/ GStop
          \/ GSample \/ GSample \/ GResult) /\ mark' = RandomElement(1..1000000)
GSpec == GInit /\ [][GNext]_W
Depth == Mode.depth
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
