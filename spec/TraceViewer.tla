------------------------------ MODULE TraceViewer -----------------------------
(* Validates recorded sessions of a viewer: every event has what the screen      *)
(* showed after it.  The first event has the results of the session.             *)
EXTENDS Viewer, TraceBase
VARIABLES rows   \* the rows seen last

Tree(ns) == [p \in {ns[i].p : i \in 1..Len(ns)} |-> LET n == ns[CHOOSE i \in 1..Len(ns) : ns[i].p = p] IN [h |-> n.h, t |-> n.t]]
TInit == /\ TraceStart /\ v = Start /\ rows = <<>>
         /\ res = [r \in 1..Len(Traces[tr][1].results) |-> Tree(Traces[tr][1].results[r])]
         /\ rank = Traces[tr][1].rank
(* What is shown after an event.                                                    *)
Seen == [i \in 1..Len(Ev.rows) |-> Ev.rows[i].p]
SeenFocus == IF Ev.focus = 0 THEN <<>> ELSE Ev.rows[Ev.focus].p
RECURSIVE SeenHot(_)
SeenHot(p) == LET q == FirstRow(Seen, p) IN IF q = p THEN p ELSE SeenHot(q)
Is(o) == Ev.op = o
Expected == CASE Is("result") -> GetResult(v, Ev.arg)
              [] Is("active") -> SetActive(v, Ev.arg)
              [] Is("kind") -> SetKind(v, Ev.arg)
              [] Is("pause") -> Pause(v)
              [] Is("resume") -> Resume(v)
              [] Is("key") -> Press(v, Ev.arg, rows, SeenHot(v.focus), SeenFocus)
              [] OTHER -> v
(* Rows that may be expanded or not are as they are seen.                           *)
Open == {Ev.rows[i].p : i \in {j \in 1..Len(Ev.rows) : Ev.rows[j].mark = "-"}}
Settle(w) == LET S == {p \in w.loose : p \in ToSet(Seen)} IN
             [w EXCEPT !.open = (@ \ S) \cup (S \cap Open), !.loose = @ \ S]
Do == /\ v' = Settle(Expected) /\ rows' = Seen /\ UNCHANGED <<res, rank>>

Meta(r) == Traces[tr][1].meta[r]
Head_ == IF Shown(v') = 0 THEN [title |-> "", cpu |-> 0, wall |-> 0] ELSE Meta(Shown(v'))
Within(b, x) == b[1] <= x /\ x <= b[2]
(* b bounds x / y * 100 in thousandths.                                              *)
Percent(b, x, y) == IF y = 0 THEN b[1] <= 0 ELSE b[1] * y <= x * 100000 /\ x * 100000 <= b[2] * y
PerCall(b, x, n) == IF n = 0 THEN Within(b, 0) ELSE b[1] * n <= x /\ x <= b[2] * n
Figures(i, a) ==
  LET f == Ev.rows[i].figures IN
  CASE v'.kind = "base" -> f = <<>>
    [] v'.kind = "tracing" -> /\ Len(f) = 7
         /\ Within(f[1], a.hits * 1000) /\ Within(f[2], a.own) /\ PerCall(f[3], a.own, a.hits) /\ Percent(f[4], a.own, Head_.cpu)
         /\ Within(f[5], a.deep) /\ PerCall(f[6], a.deep, a.hits) /\ Percent(f[7], a.deep, Head_.cpu)
    [] OTHER -> /\ Len(f) = 4
         /\ Within(f[1], a.hits * 1000) /\ Percent(f[2], a.hits, Fig(v', <<>>).deephits)
         /\ Within(f[3], a.deephits * 1000) /\ Percent(f[4], a.deephits, Fig(v', <<>>).deephits)
N == Len(Ev.rows)
(* The next row of the same parent.                                                  *)
Next_(i) == LET J == {j \in (i + 1)..N : Parent(Seen[j]) = Parent(Seen[i])} IN
            IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k
Known == ToSet(Seen) \subseteq Paths(v')
Some_ == Shown(v') > 0
Checks == FirstBad(<<
  Clause({"C22", "C23", "C24"}, "the viewer crashes: " \o Ev.crash, Ev.crash = ""),
  Clause({"C22"}, "another kind of table", Ev.head = v'.kind),
  Clause({"C22"}, "the header tells another state", Ev.state = (IF v'.paused THEN "paused" ELSE IF v'.active THEN "normal" ELSE "inactive")),
  Clause({"C22"}, "title or time of another result", Ev.title = Head_.title),
  Clause({"C22"}, "CPU or wall time of another result", Some_ => Within(Ev.cpu, Head_.cpu) /\ Within(Ev.wall, Head_.wall) /\ Percent(Ev.percent, Head_.cpu, Head_.wall)),
  Clause({"C22", "C24"}, "functions of another result", Known),
  Clause({"C24", "C22"}, "rows are missing or listed twice", Known => ToSet(Seen) = Listed(v', Open, SeenFocus) /\ N = Cardinality(ToSet(Seen))),
  Clause({"C22", "C24"}, "figures of another function or result", Known => \A i \in 1..N : Figures(i, Fig(v', Seen[i]))),
  Clause({"C24"}, "another column is marked", Ev.sorted = <<Column(v'.kind, v'.order)>>),
  Clause({"C24"}, "rows in another order", Known => LET figs == [i \in 1..N |-> Fig(v', Seen[i])] IN
            \A i \in 1..N : LET j == Next_(i) IN j > 0 => ~Before(v'.order, Fn(Seen[j]), figs[j], Fn(Seen[i]), figs[i])),
  Clause({"C23"}, "another row is focused", SeenFocus = v'.focus),
  Clause({"C23"}, "a row is folded or expanded", Known => \A i \in 1..N : Ev.rows[i].mark =
            (IF Leaf(v', Seen[i]) THEN " " ELSE IF Seen[i] \in v'.open THEN "-" ELSE "+"))>>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad, rows>>
=============================================================================
