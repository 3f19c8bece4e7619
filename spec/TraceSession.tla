------------------------------ MODULE TraceSession -----------------------------
(* Validates results, dump files and viewers of real profilers.                  *)
EXTENDS Session, TraceBase

TInit == TraceStart /\ Init /\ kind = Traces[tr][1].kind

Do == CASE Ev.op = "tick" -> Tick(Ev.c, Ev.w)
        [] Ev.op = "work" -> Work(Ev.p, Ev.d)
        [] Ev.op = "start" -> IF running THEN Refused ELSE Start
        [] Ev.op = "failstart" -> FailedStart
        [] Ev.op = "stop" -> IF running THEN Stop ELSE Refused
        [] OTHER -> UNCHANGED vars

(* The error of start and stop.                                                   *)
Expected == CASE Ev.op = "start" -> IF running THEN "RuntimeError" ELSE ""
              [] Ev.op = "stop" -> IF running THEN "" ELSE "RuntimeError"
              [] Ev.op = "failstart" -> Ev.err
              [] OTHER -> ""
In(x, b) == b[1] <= x /\ x <= b[2]
Exact == {<<p, rec[p][1], IF kind = "tracing" THEN rec[p][2] ELSE 0>> : p \in DOMAIN rec}
Same == ToSet(Ev.rows) = Exact /\ Len(Ev.rows) = Cardinality(Exact)
(* A row of a table: path, own hits, time or inclusive hits, both as bounds in    *)
(* thousandths.                                                                   *)
Figures(r) == /\ r[1] \in DOMAIN rec
              /\ In(rec[r[1]][1] * 1000, r[2])
              /\ IF kind = "tracing" THEN In(rec[r[1]][2], r[3]) ELSE In(DeepHits(r[1]) * 1000, r[3])
Shown == /\ {r[1] : r \in ToSet(Ev.rows)} = DOMAIN rec
         /\ Len(Ev.rows) = Cardinality(DOMAIN rec)
         /\ \A i \in 1..Len(Ev.rows) : Figures(Ev.rows[i])

Checks == FirstBad(<<
  Clause({"C14"}, Ev.op \o " failed", Ev.err = Expected),
  IF Ev.op \in {"result", "file"} THEN FirstBad(<<
    Clause({"C14"}, "statistics of the " \o Ev.op, Same),
    Clause({"C14"}, "times of the " \o Ev.op, Ev.cpu = CpuTime /\ Ev.wall = WallTime),
    Clause({"C14"}, "kind of the " \o Ev.op, Ev.op = "file" => Ev.table = kind)>>)
  ELSE IF Ev.op \in {"view", "viewcmd"} THEN FirstBad(<<
    Clause({"C14"}, "table shown by " \o Ev.op, Ev.table = kind),
    Clause({"C14"}, "statistics shown by " \o Ev.op, Shown),
    Clause({"C14"}, "times shown by " \o Ev.op, In(CpuTime, Ev.cpu) /\ In(WallTime, Ev.wall)),
    Clause({"C14"}, "title shown by " \o Ev.op, Ev.title = Ev.expect)>>)
  ELSE "">>)
TNext == More /\ Do /\ Advance /\ bad' = Checks
TraceSpec == TInit /\ [][TNext]_<<vars, tr, l, bad>>
=============================================================================
