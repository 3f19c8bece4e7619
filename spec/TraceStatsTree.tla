--------------------------- MODULE TraceStatsTree ------------------------------
(* Validates what the real statistics show after each operation.  The first     *)
(* event of a trace is the table of the codes: the function of each code and    *)
(* the ranks of names and modules in alphabetical order (0: there is none).     *)
EXTENDS StatsTree, TraceBase

Table == Traces[1][1]
TraceFn(c) == Table.fn[c]
TInit == TraceStart /\ Init

Query == {"chain", "table", "show", "pickle", "flatten", "sort", "get"}
Do == CASE Ev.op \in Query -> UNCHANGED vars
        [] Ev.op = "add" -> Add(Ev.p, Ev.c, Ev.kind)
        [] Ev.op = "ensure" -> Ensure(Ev.p, Ev.c, Ev.kind)
        [] Ev.op \in {"remove", "discard", "exclude"} -> Drop(Ev.p, Ev.c)
        [] Ev.op = "clear" -> Clear(Ev.p)
        [] Ev.op = "record" -> Record(Ev.p, Ev.h, Ev.t)

Fn(c) == IF c = 0 THEN 0 ELSE FnOf(c)
Seen(r) == <<r.depth, Fn(r.code), r.hits, r.deep, r.own, r.deephits, r.dpc, r.opc>>
AllRows == [i \in 1..Len(Rows(<<>>)) |-> Seen(Rows(<<>>)[i])]
Cols(r, cs) == [j \in 1..Len(cs) |-> r[cs[j]]]
SameCols(xs, ys, cs) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Cols(xs[i], cs) = Cols(ys[i], cs)

(* A chain of nodes, one below the other.                                         *)
ChainRow(cs, hs, ts, D, i) ==
  LET n == Len(cs)
      own == Max(0, ts[i] - (IF i < n THEN ts[i + 1] ELSE 0)) IN
  <<i - 1, Fn(cs[i]), hs[i], ts[i], own, D[i], PerCall(ts[i], hs[i]), PerCall(own, hs[i])>>
RECURSIVE Suffixes(_, _, _)
Suffixes(hs, i, acc) == IF i = 0 THEN acc ELSE Suffixes(hs, i - 1, <<hs[i] + (IF acc = <<>> THEN 0 ELSE acc[1])>> \o acc)
ChainRows(cs, hs, ts) == LET D == Suffixes(hs, Len(hs), <<>>) IN [i \in 1..Len(cs) |-> ChainRow(cs, hs, ts, D, i)]
ChainFlat(cs, hs, ts, rows, f) ==
  LET Q == {i \in 2..Len(cs) : rows[i][2] = f}
      S(k) == SumOver([i \in Q |-> rows[i][k]], Q) IN
  <<f, S(3), S(6), S(5), S(4), PerCall(S(4), S(3)), PerCall(S(5), S(3))>>

FlatSeen(r) == <<r.fn, r.hits, r.deephits, r.own, r.deep, r.dpc, r.opc>>

(* Children as rows and what a key means for them.                               *)
Children(p) == [i \in 1..Len(kids[p]) |-> Seen(Row(Append(p, kids[p][i])))]
AsRow(r) == <<0, r.fn, r.hits, r.deep, r.own, r.deephits, r.dpc, r.opc>>
Count(x, xs) == Cardinality({i \in 1..Len(xs) : xs[i] = x})
Permuted(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Count(xs[i], xs) = Count(xs[i], ys)
NRank(r) == Table.name[r[2]]
MRank(r) == Table.module[r[2]]
(* One after the other under a key: r may be shown before s.                      *)
May(k, r, s) ==
  CASE k = "by_name" -> NRank(r) = 0 \/ NRank(s) = 0 \/ NRank(r) <= NRank(s)
    [] k = "by_module" -> MRank(r) = 0 \/ MRank(s) = 0 \/ MRank(r) <= MRank(s)
    [] k = "by_function" -> MRank(r) = 0 \/ MRank(s) = 0 \/ MRank(r) < MRank(s)
                            \/ (MRank(r) = MRank(s) /\ (NRank(r) = 0 \/ NRank(s) = 0 \/ NRank(r) <= NRank(s)))
    [] k = "by_own_hits" -> r[3] >= s[3]
    [] k = "by_deep_hits" -> r[6] >= s[6]
    [] k = "by_deep_time" -> r[4] >= s[4]
    [] k = "by_own_time" -> r[5] > s[5] \/ (r[5] = s[5] /\ r[4] >= s[4])
    [] k = "by_deep_time_per_call" -> r[3] = 0 \/ s[3] = 0 \/ r[7] * s[3] >= s[7] * r[3]
    [] k = "by_own_time_per_call" -> r[3] = 0 \/ s[3] = 0 \/ r[8] * s[3] >= s[8] * r[3]
Sorted(k, xs) == \A i, j \in 1..Len(xs) : i < j => May(k, xs[i], xs[j])
(* Those without a name or module are together.                                   *)
Together(R(_), xs) == \A i, j, m \in 1..Len(xs) : i < j /\ j < m /\ R(xs[i]) = 0 /\ R(xs[m]) = 0 => R(xs[j]) = 0
Rev(xs) == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]
Strip(xs) == [i \in 1..Len(xs) |-> [xs[i] EXCEPT ![1] = 0]]
FlatRows(p) == [f \in Functions(p) |-> AsRow(FlatRow(p, f))]

ChecksOf(e) ==
  CASE e.op = "table" -> ""
    [] e.op = "pickle" -> FirstBad(<<
         Clause({"C10"}, "the copy can be loaded", e.err = ""),
         Clause({"C10"}, "shape, order and members of the copy", SameCols(e.rows, AllRows, <<1, 2, 3, 4>>)),
         Clause({"C10"}, "derived figures of the copy", e.rows = AllRows),
         Clause({"C10"}, "the original is unaltered", e.orig = AllRows)>>)
    [] e.op = "chain" -> LET R == ChainRows(e.codes, e.hits, e.times) IN FirstBad(<<
         Clause({"C09"}, "figures of a deep tree", PROP = "C09" => e.rows = R),
         Clause({"C10"}, "the copy of a deep tree can be loaded", e.err = ""),
         Clause({"C10"}, "copy of a deep tree", PROP = "C10" => e.loaded = R /\ e.rows = R),
         Clause({"C11"}, "flat layout of a deep tree",
                PROP = "C11" => /\ {e.flat[i][1] : i \in 1..Len(e.flat)} = {R[i][2] : i \in 2..Len(R)}
                                /\ \A i \in 1..Len(e.flat) : e.flat[i] = ChainFlat(e.codes, e.hits, e.times, R, e.flat[i][1]))>>)
    [] e.op = "flatten" -> FirstBad(<<
         Clause({"C11"}, "one row per function", /\ {e.rows[i][1] : i \in 1..Len(e.rows)} = Functions(e.p)
                                                 /\ Len(e.rows) = Cardinality(Functions(e.p))),
         Clause({"C11"}, "sums of a function", \A i \in 1..Len(e.rows) : e.rows[i] = FlatSeen(FlatRow(e.p, e.rows[i][1]))),
         Clause({"C11"}, "figures of the root", e.root = FlatSeen(Row(e.p) @@ ("fn" :> Fn(Row(e.p).code)))),
         Clause({"C11"}, "the nested statistics are unaltered", e.orig = AllRows)>>)
    [] e.op = "sort" ->
         LET expected == IF e.flat THEN LET F == FlatRows(e.p) IN F ELSE <<>>
             xs == Strip(e.rows)
             ys == IF e.inv THEN Rev(xs) ELSE xs IN FirstBad(<<
         Clause({"C12"}, "sorting succeeds", e.err = ""),
         Clause({"C12"}, "the sorted ones are the children",
                IF e.flat THEN /\ Len(xs) = Cardinality(Functions(e.p))
                               /\ \A i \in 1..Len(xs) : xs[i][2] \in DOMAIN expected /\ xs[i] = expected[xs[i][2]]
                          ELSE Permuted(xs, Strip(Children(e.p)))),
         Clause({"C12"}, "order", Sorted(e.key, ys)),
         Clause({"C12"}, "order is total", CASE e.key = "by_name" -> Together(NRank, xs)
                                             [] e.key \in {"by_module", "by_function"} -> Together(MRank, xs)
                                             [] OTHER -> TRUE)>>)
    [] e.op = "show" -> FirstBad(<<
         Clause({"C09"}, "shape of the tree", SameCols(e.rows, AllRows, <<1, 2>>)),
         Clause({"C09"}, "recorded hits and times", SameCols(e.rows, AllRows, <<3, 4>>)),
         Clause({"C09"}, "exclusive time", SameCols(e.rows, AllRows, <<5>>)),
         Clause({"C09"}, "inclusive hits", SameCols(e.rows, AllRows, <<6>>)),
         Clause({"C09"}, "figures per call", SameCols(e.rows, AllRows, <<7, 8>>))>>)
    [] e.op = "get" -> FirstBad(<<
         Clause({"C09"}, "getting a child", /\ (e.err = "KeyError") = ~Has(e.p, e.c)
                                            /\ (e.contains = Has(e.p, e.c)) /\ e.len = Len(kids[e.p])
                                            /\ (Has(e.p, e.c) => e.row = Seen(Row(Append(e.p, e.c)))))>>)
    [] e.op = "ensure" -> Clause({"C09"}, "ensuring returns the child in the tree", e.err = "" /\ e.same)
    [] e.op = "remove" -> Clause({"C09"}, "removing an absent child is refused", (e.err = "KeyError") = ~Has(e.p, e.c) /\ e.err \in {"", "KeyError"})
    [] OTHER -> Clause({"C09"}, "operation succeeds", e.err = "")

TNext == More /\ Do /\ Advance /\ bad' = ChecksOf(Ev)
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
