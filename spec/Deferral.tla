------------------------------ MODULE Deferral ------------------------------
(* The deferral helper: calls registered in a with block are executed when    *)
(* the block ends.  Several blocks may be open at once, independently.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Block, MaxReg

(* What a registered call does: return, fail, register another one that       *)
(* returns or fails, or register one and then fail itself.                    *)
CallKinds == {"ok", "fail", "regok", "regfail", "failreg"}
Kinds == CallKinds \cup {"same"}   \* "same": the last registered call once more
Endings == {"none", "error", "interrupt", "close"}

VARIABLES
  phase,   \* Block -> "open", "draining" or "ended"
  stack,   \* Block -> calls registered and not executed yet, last one on top
  failed,  \* Block -> what failed: 0 for the block itself, ids of calls
  done,    \* Block -> ids of executed calls, in order
  last,    \* greatest id given out
  count    \* number of registrations made by the blocks themselves
vars == <<phase, stack, failed, done, last, count>>

Init == /\ phase = [b \in Block |-> "open"] /\ stack = [b \in Block |-> <<>>]
        /\ failed = [b \in Block |-> {}] /\ done = [b \in Block |-> <<>>]
        /\ last = 0 /\ count = 0

Top(s) == s[Len(s)]
Rest(s) == SubSeq(s, 1, Len(s) - 1)

Register(b, k) ==
  /\ phase[b] = "open" /\ (k = "same" => stack[b] # <<>>) /\ last' = last + 1 /\ count' = count + 1
  /\ stack' = [stack EXCEPT ![b] = Append(@, IF k = "same" THEN [Top(stack[b]) EXCEPT !.id = last + 1]
                                                ELSE [id |-> last + 1, call |-> last + 1, kind |-> k])]
  /\ UNCHANGED <<phase, failed, done>>

End(b, how) ==
  /\ phase[b] = "open" /\ phase' = [phase EXCEPT ![b] = "draining"]
  /\ failed' = [failed EXCEPT ![b] = IF how \in {"error", "interrupt"} THEN {0} ELSE {}]
  /\ UNCHANGED <<stack, done, last, count>>

(* The call on top is executed; it may register another one.                  *)
Execute(b) ==
  /\ phase[b] = "draining" /\ stack[b] # <<>>
  /\ LET c == Top(stack[b])
         new == CASE c.kind \in {"regok", "failreg"} -> <<[id |-> last + 1, call |-> last + 1, kind |-> "ok"]>>
                  [] c.kind = "regfail" -> <<[id |-> last + 1, call |-> last + 1, kind |-> "fail"]>>
                  [] OTHER -> <<>> IN
     /\ stack' = [stack EXCEPT ![b] = Rest(@) \o new]
     /\ last' = last + Len(new)
     /\ done' = [done EXCEPT ![b] = Append(@, c.id)]
     /\ failed' = [failed EXCEPT ![b] = IF c.kind \in {"fail", "failreg"} THEN @ \cup {c.call} ELSE @]
  /\ UNCHANGED <<phase, count>>

(* The block is left: with one of the failures if there was any.              *)
Leave(b, raised) ==
  /\ phase[b] = "draining" /\ stack[b] = <<>>
  /\ IF failed[b] = {} THEN raised = -1 ELSE raised \in failed[b]
  /\ phase' = [phase EXCEPT ![b] = "ended"]
  /\ UNCHANGED <<stack, failed, done, last, count>>

Next == \E b \in Block :
   \/ \E k \in Kinds : count < MaxReg /\ Register(b, k)
   \/ \E h \in Endings : End(b, h)
   \/ Execute(b)
   \/ \E r \in -1..last : Leave(b, r)

Spec == Init /\ [][Next]_vars

Ids(b) == {done[b][i] : i \in 1..Len(done[b])}
ExecutedOnce == \A b \in Block : Cardinality(Ids(b)) = Len(done[b])
               /\ \A i \in 1..Len(stack[b]) : stack[b][i].id \notin Ids(b)
AllExecuted == \A b \in Block : phase[b] = "ended" => stack[b] = <<>>
NothingEarly == \A b \in Block : phase[b] = "open" => done[b] = <<>>
OwnBlockOnly == \A b, c \in Block : b # c => Ids(b) \cap Ids(c) = {}
(* What is registered by the block runs in reverse order: an id that is smaller *)
(* than its predecessor's, or the one registered by that predecessor.          *)
Reverse == \A b \in Block : \A i \in 1..(Len(done[b]) - 1) :
             done[b][i + 1] < done[b][i] \/ \A j \in 1..i : done[b][j] < done[b][i + 1]
=============================================================================
