---------------------------- MODULE LifecycleGen ----------------------------
(* Dumps the labelled state graph of Lifecycle for one choice of kinds.       *)
EXTENDS Lifecycle, Json, IOUtils
VARIABLE op
K == JsonDeserialize(IOEnv.KINDS)
GInit == InitWith([o \in Obj |-> K[o]]) /\ op = <<>>
A(x, act) == act /\ op' = x
GNext == \/ \E o \in Obj : CanStart(o) /\ \E f \in StartFaults(kind[o]) : A(<<"start", o, f>>, Start(o, f)) \/ A(<<"enter", o, f>>, Start(o, f))
         \/ \E o \in Obj : CanStop(o) /\ \E f \in StopFaults(kind[o]) :
              A(<<"stop", o, f>>, Stop(o, f)) \/ \E exc \in BOOLEAN : A(<<"exit", o, f, exc>>, Exit(o, f, exc))
         \/ \E b \in BOOLEAN : A(<<"foreign", b>>, Foreign(b))
         \/ \E v \in {"DFL", "IGN", "custom"} : A(<<"setsig", v>>, SetSig(v))
         \/ \E v \in {"off", "user"} : A(<<"setitv", v>>, SetItv(v))
         \/ A(<<"work">>, Work) \/ A(<<"spawn">>, Spawn) \/ A(<<"poke">>, Poke)
GSpec == GInit /\ [][GNext]_<<vars, op>>
ModSess == [o \in Obj |-> sess[o] = 0]
St == <<run, hook, fut, sig, itv, saved, whook[1], IF whook[1] \in Obj THEN whook[2] = sess[whook[1]] ELSE FALSE>>
Dump == PrintT(ToJson(<<"EDGE", St, op', St'>>))
InitDump == TLCGet("level") = 1 => PrintT(ToJson(<<"INIT", St>>))
=============================================================================
