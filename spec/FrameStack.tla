------------------------------ MODULE FrameStack ------------------------------
(* The frame stack of a frame: its callers above the nearest base, without the *)
(* ignored ones.  A chain is the sequence of code names, outermost first; the   *)
(* frame is the last one.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Code, MaxLen

VARIABLES chain, base, bcode, ignf, ignc
vars == <<chain, base, bcode, ignf, ignc>>

Chains == UNION {[1..n -> Code] : n \in 1..MaxLen}
(* base: position of the base frame, 0 for none, -1 for a frame that is not in  *)
(* the chain; bcode: code of the base, "" for none.                            *)
Init == /\ chain \in Chains /\ base \in -1..Len(chain)
        /\ bcode \in Code \cup {"", "foreign"}
        /\ ignf \in SUBSET (1..Len(chain)) /\ ignc \in SUBSET Code
Spec == Init /\ [][UNCHANGED vars]_vars

IsBase(ch, b, bc, i) == i = b \/ ch[i] = bc
IsIgnored(ch, fs, cs, i) == i \in fs \/ ch[i] \in cs
RECURSIVE Walk(_, _, _, _, _, _)
(* From the frame outwards.                                                     *)
Walk(ch, b, bc, fs, cs, i) ==
  IF i = 0 \/ (i > 0 /\ IsBase(ch, b, bc, i)) THEN <<>>
  ELSE Walk(ch, b, bc, fs, cs, i - 1) \o (IF IsIgnored(ch, fs, cs, i) THEN <<>> ELSE <<i>>)
Stack(ch, b, bc, fs, cs) == Walk(ch, b, bc, fs, cs, Len(ch))

Result == Stack(chain, base, bcode, ignf, ignc)
Elems == {Result[i] : i \in 1..Len(Result)}
(* As the property says it.                                                     *)
Bases == {i \in 1..Len(chain) : IsBase(chain, base, bcode, i)}
Nearest == IF Bases = {} THEN 0 ELSE CHOOSE i \in Bases : \A j \in Bases : j <= i
Complete == Elems = {i \in (Nearest + 1)..Len(chain) : ~IsIgnored(chain, ignf, ignc, i)}
InOrder == \A i \in 1..(Len(Result) - 1) : Result[i] < Result[i + 1]
=============================================================================
