---------------------------- MODULE DeferralGen -----------------------------
(* Dumps the behaviours of the blocks (registrations and endings); what follows *)
(* an ending is up to the code.                                               *)
EXTENDS Deferral, Json
VARIABLE op
GInit == Init /\ op = <<>>
A(x, act) == act /\ op' = x
Ended(b, how) == /\ phase[b] = "open" /\ phase' = [phase EXCEPT ![b] = "ended"]
                 /\ UNCHANGED <<stack, failed, done, last, count>>
GNext == \E b \in Block :
   \/ \E k \in Kinds : count < MaxReg /\ A(<<"reg", b, k>>, Register(b, k))
   \/ \E h \in Endings : A(<<"end", b, h>>, Ended(b, h))
GSpec == GInit /\ [][GNext]_<<vars, op>>
St == <<phase, [b \in Block |-> [i \in 1..Len(stack[b]) |-> stack[b][i].kind]]>>
Dump == PrintT(ToJson(<<"EDGE", St, op', St'>>))
InitDump == TLCGet("level") = 1 => PrintT(ToJson(<<"INIT", St>>))
=============================================================================
