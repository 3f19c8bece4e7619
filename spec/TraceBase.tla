------------------------------ MODULE TraceBase ------------------------------
(* What every trace specification shares: the recorded traces ($TRACES, a    *)
(* JSON array of arrays of events), the position in the trace, and the total *)
(* verdict `bad` that names the first violated clause ("" if none).  A clause *)
(* belongs to a property; only clauses of the property under check ($PROP)    *)
(* are decided in a run.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP

VARIABLES tr, l, bad

Clause(props, name, holds) == IF PROP \in props /\ ~holds THEN name ELSE ""

RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN ""
                ELSE IF Head(cs) # "" THEN Head(cs) ELSE FirstBad(Tail(cs))

TraceStart == tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
More == bad = "" /\ l <= Len(Traces[tr])
Ev == Traces[tr][l]
Advance == l' = l + 1 /\ UNCHANGED tr
ToSet(s) == {s[i] : i \in 1..Len(s)}

Report == /\ (bad # "") => PrintT(ToJson(<<"BAD", tr, bad, l - 1>>))
          /\ (bad = "" /\ l > Len(Traces[tr])) => PrintT(ToJson(<<"DONE", tr>>))
=============================================================================
