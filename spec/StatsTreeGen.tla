---------------------------- MODULE StatsTreeGen ------------------------------
EXTENDS StatsTree, Json, IOUtils
VARIABLES op, mark
A(x, act) == act /\ op' = Append(op, x)
Pick(X) == {RandomElement(IF op = <<>> THEN X ELSE X)}   \* of the state: else TLC would choose once for all steps
Depth == JsonDeserialize(IOEnv.MODE).depth
Unit == 7
GInit == Init /\ op = <<>> /\ mark = RandomElement(1..1000000)
Room(p) == Len(p) < MaxDepth /\ Cardinality(DOMAIN tree) < 40
GNext == (\E p \in Pick(DOMAIN tree), c \in Pick(Code), k \in Pick({"rec", "rec", "void", "default"}),
             h \in Pick({0, 1, 1, 2}), t \in Pick({0, 1, 1, 2, 5}), how \in Pick({"remove", "discard", "exclude"}) :
   \/ Room(p) /\ A(<<"add", p, c, k>>, Add(p, c, k))
   \/ Room(p) /\ A(<<"ensure", p, c, k>>, Ensure(p, c, k))
   \/ Room(p) /\ A(<<"ensure", p, c, k>>, Ensure(p, c, k))
   \/ Len(p) > 1 /\ A(<<"ensure", SubSeq(p, 1, Len(p) - 1), p[Len(p)], k>>, Ensure(SubSeq(p, 1, Len(p) - 1), p[Len(p)], k))
   \/ /\ mark % 4 = 0
      /\ LET d == IF kids[p] # <<>> /\ mark % 3 # 0 THEN kids[p][1 + (mark % Len(kids[p]))] ELSE c IN
         A(<<IF how = "exclude" /\ p # <<>> THEN "remove" ELSE how, p, d>>, Drop(p, d))
   \/ mark % 10 = 0 /\ A(<<"clear", p>>, Clear(p))
   \/ tree[p].hits + h < 6 /\ A(<<"record", p, h, t * Unit>>, Record(p, h, t * Unit))
   \/ tree[p].hits + h < 6 /\ A(<<"record", p, h, t * Unit>>, Record(p, h, t * Unit))
   \/ tree[p].hits + h < 6 /\ A(<<"record", p, h, t * Unit>>, Record(p, h, t * Unit)))
   /\ mark' = RandomElement(1..1000000)
GSpec == GInit /\ [][GNext]_<<vars, op, mark>>
Dump == Len(op') = Depth => PrintT(ToJson(<<"PROGRAM", op'>>))
=============================================================================
