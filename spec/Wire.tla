---------------------------------- MODULE Wire ---------------------------------
(* Messages on a byte stream.  A message is a method (M bytes), the size of its  *)
(* body (S bytes) and the body.  The network delivers bytes in any portions and  *)
(* may end at any byte; the receiver reads what it needs as far as it is there.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CLOSED == 0       \* what a call returns that gets a connection error

CONSTANTS M, S, MaxBody, MaxSent

VARIABLES
  sent,     \* sizes of the bodies that were sent
  there,    \* bytes delivered so far
  over,     \* the connection ended: nothing more will be delivered
  pos,      \* bytes read so far
  calls,    \* calls of the receiver that returned: numbers of messages, or CLOSED
  part,     \* what the running call reads: "", "method", "size" or "body"
  need      \* bytes of it that are missing
vars == <<sent, there, over, pos, calls, part, need>>

Init == /\ sent = <<>> /\ there = 0 /\ over = FALSE /\ pos = 0
        /\ calls = <<>> /\ part = "" /\ need = 0

Sum(f) == LET F[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE F[i - 1] + f[i] IN F[Len(f)]
Length(i) == M + S + sent[i]
Upto(n) == Sum(SubSeq(sent, 1, n)) + n * (M + S)     \* bytes of the first n messages
Total == Upto(Len(sent))

Send(b) == ~over /\ sent' = Append(sent, b) /\ UNCHANGED <<there, over, pos, calls, part, need>>
Deliver(n) == ~over /\ there + n <= Total /\ there' = there + n /\ UNCHANGED <<sent, over, pos, calls, part, need>>
End == ~over /\ over' = TRUE /\ UNCHANGED <<sent, there, pos, calls, part, need>>

Failed == calls # <<>> /\ calls[Len(calls)] = CLOSED
Call == part = "" /\ ~Failed /\ part' = "method" /\ need' = M /\ UNCHANGED <<sent, there, over, pos, calls>>
Current == Len(calls) + 1
Read(n) == /\ part # "" /\ n > 0 /\ n <= need /\ pos + n <= there
           /\ pos' = pos + n
           /\ IF n < need THEN need' = need - n /\ UNCHANGED <<part, calls>>
              ELSE CASE part = "method" -> part' = "size" /\ need' = S /\ UNCHANGED calls
                     [] part = "size" -> part' = "body" /\ need' = sent[Current] /\ UNCHANGED calls
                     [] part = "body" -> part' = "" /\ need' = 0 /\ calls' = Append(calls, Current)
           /\ UNCHANGED <<sent, there, over>>
Closed == /\ part # "" /\ over /\ pos = there
          /\ part' = "" /\ need' = 0 /\ calls' = Append(calls, CLOSED) /\ UNCHANGED <<sent, there, over, pos>>

Next == \/ \E b \in 1..MaxBody : Send(b)
        \/ \E n \in 1..Total : Deliver(n)
        \/ \E n \in 1..(M + S + MaxBody) : Read(n)
        \/ End \/ Call \/ Closed
Spec == Init /\ [][Next]_vars /\ WF_vars(Call) /\ WF_vars(Closed) /\ WF_vars(\E n \in 1..(M + S + MaxBody) : Read(n))
Bound == Len(sent) <= MaxSent

(* What each call returns.                                                        *)
Whole(n) == Upto(n) <= there
Expected(j) == IF j <= Len(sent) /\ Whole(j) THEN j ELSE CLOSED
Complete == \A j \in 1..Len(calls) : calls[j] = Expected(j)
Aligned == part = "" /\ ~Failed => pos = Upto(Len(calls))
(* What has arrived completely is received.                                       *)
Received == <>[](\A j \in 1..Len(sent) : Whole(j) => Len(calls) >= j /\ calls[j] = j)
=============================================================================
