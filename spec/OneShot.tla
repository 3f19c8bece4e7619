-------------------------------- MODULE OneShot --------------------------------
(* One run of the profile or timeit command: a program of some kind is run once   *)
(* (a statement so many times), under a profiler that is on just while it runs,   *)
(* and its profile is delivered once, however the program ended.                  *)
(*                                                                               *)
(* A program is a sequence of operations, executed by the functions that call     *)
(* each other; nothing but a return of the outermost level, an exit or an         *)
(* exception nobody catches ends it.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fn, MaxOps

Ops == {<<"call", f>> : f \in Fn} \cup {<<"try", f>> : f \in Fn}
       \cup {<<"ret", 0>>, <<"raise", 0>>, <<"exit", 0>>, <<"kbd", 0>>, <<"base", 0>>, <<"see", 0>>}
Catchable(o) == o = "raise"
Endings == {"raise", "exit", "kbd", "base"}

VARIABLES
  phase,     \* "new", "running", "ended", "delivered"
  prog,      \* the operations that are left, of this repetition
  whole,     \* the whole program
  reps,      \* repetitions that are left after this one
  stack,     \* <<function, guarded>> of the functions that run
  calls,     \* path -> number of calls
  done,      \* the operations executed, with the depth they were executed at
  ending,    \* "" while it runs, "return" or an element of Endings
  on,        \* the profiler runs
  traceback, \* how often a traceback was shown
  given      \* how often a profile was delivered
vars == <<phase, prog, whole, reps, stack, calls, done, ending, on, traceback, given>>

Init == /\ phase = "new" /\ prog = <<>> /\ whole = <<>> /\ reps = 0 /\ stack = <<>> /\ calls = <<>>
        /\ done = <<>> /\ ending = "" /\ on = FALSE /\ traceback = 0 /\ given = 0

Begin(p, n) == /\ phase = "new" /\ phase' = "running" /\ prog' = p /\ whole' = p /\ reps' = n - 1
               /\ on' = TRUE /\ UNCHANGED <<stack, calls, done, ending, traceback, given>>

Path == [i \in 1..Len(stack) |-> stack[i][1]]
Called(f) == LET p == Append(Path, f) IN
             IF p \in DOMAIN calls THEN [calls EXCEPT ![p] = @ + 1] ELSE calls @@ (p :> 1)
Guards == {i \in 1..Len(stack) : stack[i][2]}
Top(S) == CHOOSE i \in S : \A j \in S : j <= i

(* The outermost level is left: the next repetition begins, or it is the end.     *)
Leave == IF reps > 0 THEN reps' = reps - 1 /\ prog' = whole /\ UNCHANGED <<phase, ending, on>>
         ELSE reps' = 0 /\ prog' = <<>> /\ phase' = "ended" /\ ending' = "return" /\ on' = FALSE
Fail(o) == phase' = "ended" /\ ending' = o /\ on' = FALSE /\ stack' = <<>> /\ prog' = <<>> /\ UNCHANGED reps

Return == IF stack = <<>> THEN Leave /\ UNCHANGED stack
          ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ prog' = prog /\ UNCHANGED <<phase, ending, on, reps>>

(* An operation is executed; a program without further operations returns.        *)
Step == /\ phase = "running"
        /\ IF prog = <<>> THEN done' = done /\ calls' = calls /\ Return
           ELSE LET o == Head(prog)[1]
                    rest == Tail(prog) IN
                /\ done' = Append(done, Head(prog))
                /\ CASE o \in {"call", "try"} ->
                          /\ calls' = Called(Head(prog)[2])
                          /\ stack' = Append(stack, <<Head(prog)[2], o = "try">>)
                          /\ prog' = rest /\ UNCHANGED <<phase, ending, on, reps>>
                     [] o = "ret" /\ stack # <<>> ->
                          /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ prog' = rest
                          /\ UNCHANGED <<phase, ending, on, reps, calls>>
                     [] o = "ret" /\ stack = <<>> -> Leave /\ UNCHANGED <<calls, stack>>
                     [] Catchable(o) /\ Guards # {} ->
                          /\ stack' = SubSeq(stack, 1, Top(Guards) - 1) /\ prog' = rest
                          /\ UNCHANGED <<phase, ending, on, reps, calls>>
                     [] o \in Endings /\ ~(Catchable(o) /\ Guards # {}) -> Fail(o) /\ UNCHANGED calls
                     [] OTHER -> prog' = rest /\ UNCHANGED <<phase, ending, on, reps, calls, stack>>
        /\ UNCHANGED <<whole, traceback, given>>

Deliver == /\ phase = "ended" /\ phase' = "delivered" /\ given' = given + 1
           /\ traceback' = traceback + (IF ending = "return" THEN 0 ELSE 1)
           /\ UNCHANGED <<prog, whole, reps, stack, calls, done, ending, on>>

Programs == UNION {[1..n -> Ops] : n \in 0..MaxOps}
Next == (\E p \in Programs, n \in 1..2 : Begin(p, n)) \/ Step \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Deliver)

(* Whatever the program, its profile is delivered once, in the end.               *)
Delivered == phase = "running" ~> phase = "delivered"
Once == given <= 1 /\ (phase = "delivered") = (given = 1)
(* The profiler runs just while the program does.                                 *)
OnlyWhileRunning == on = (phase = "running")
(* The profile is delivered after the end, which is not changed by it.            *)
Shown == phase = "delivered" => traceback = (IF ending = "return" THEN 0 ELSE 1)
(* As many calls as were made, each below one that was made.                      *)
RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE y \in DOMAIN f : TRUE IN f[x] + Sum([y \in DOMAIN f \ {x} |-> f[y]])
Made == Cardinality({i \in 1..Len(done) : done[i][1] \in {"call", "try"}})
AllCalls == Sum(calls) = Made /\ \A p \in DOMAIN calls : Len(p) > 1 => SubSeq(p, 1, Len(p) - 1) \in DOMAIN calls
=============================================================================
