------------------------------ MODULE StatsTree ------------------------------
(* A statistics tree and its operations; the figures derived from it, its       *)
(* pickled copy, its flat layout and its sorted children.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Code,      \* codes of functions
          FnOf(_),   \* code -> function (name, file, line and module)
          MaxDepth, MaxHits, MaxTime

Mod2(c) == c % 2     \* used for model checking

VARIABLES tree,  \* path -> [void, hits, time]
          kids   \* path -> codes of the children in order
vars == <<tree, kids>>

New(v) == [void |-> v, hits |-> 0, time |-> 0]
Init == tree = (<<>> :> New(FALSE)) /\ kids = (<<>> :> <<>>)

Below(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Without(f, D) == [q \in DOMAIN f \ D |-> f[q]]
Sub(p) == {q \in DOMAIN tree : Below(p, q)}
Has(p, c) == \E i \in 1..Len(kids[p]) : kids[p][i] = c
WithKid(p, c) == IF Has(p, c) THEN kids ELSE [kids EXCEPT ![p] = Append(@, c)]
IsVoid(p, kind) == IF kind = "default" THEN tree[p].void ELSE kind = "void"

(* Adding replaces what was there.                                              *)
Add(p, c, kind) ==
  LET q == Append(p, c) IN
  /\ tree' = (q :> New(IsVoid(p, kind))) @@ Without(tree, Sub(q))
  /\ kids' = (q :> <<>>) @@ Without(WithKid(p, c), Sub(q))

(* Ensuring leaves what is there; only an absent one becomes present.           *)
Ensure(p, c, kind) ==
  LET q == Append(p, c) IN
  IF ~Has(p, c) THEN Add(p, c, kind)
  ELSE /\ tree' = IF tree[q].void /\ ~IsVoid(p, kind) THEN [tree EXCEPT ![q] = New(FALSE)] ELSE tree
       /\ UNCHANGED kids

Drop(p, c) ==
  LET q == Append(p, c) IN
  IF Has(p, c) THEN /\ tree' = Without(tree, Sub(q))
                    /\ kids' = [Without(kids, Sub(q)) EXCEPT ![p] = SelectSeq(@, LAMBDA x : x # c)]
  ELSE UNCHANGED vars

Clear(p) ==
  /\ tree' = [Without(tree, Sub(p) \ {p}) EXCEPT ![p] = New(@.void)]
  /\ kids' = [Without(kids, Sub(p) \ {p}) EXCEPT ![p] = <<>>]

(* Absent frames record nothing.                                                *)
Record(p, h, t) ==
  /\ tree' = IF tree[p].void THEN tree ELSE [tree EXCEPT ![p].hits = @ + h, ![p].time = @ + t]
  /\ UNCHANGED kids

(* ---- figures ------------------------------------------------------------------ *)

Max(a, b) == IF a > b THEN a ELSE b
Hits(p) == IF tree[p].void THEN 0 ELSE tree[p].hits
RECURSIVE Deep(_), DeepHits(_), SumDeep(_, _), SumHits(_, _)
SumDeep(p, i) == IF i = 0 THEN 0 ELSE Deep(Append(p, kids[p][i])) + SumDeep(p, i - 1)
SumHits(p, i) == IF i = 0 THEN 0 ELSE DeepHits(Append(p, kids[p][i])) + SumHits(p, i - 1)
Deep(p) == IF tree[p].void THEN SumDeep(p, Len(kids[p])) ELSE tree[p].time
DeepHits(p) == Hits(p) + SumHits(p, Len(kids[p]))
Own(p) == Max(0, Deep(p) - SumDeep(p, Len(kids[p])))
(* Figures per call are multiplied by the number of calls again: t / h * h.        *)
PerCall(t, h) == IF h = 0 THEN 0 ELSE t

(* Rows of all nodes, each before its children.                                   *)
Row(p) == [depth |-> Len(p), code |-> IF p = <<>> THEN 0 ELSE p[Len(p)], hits |-> Hits(p), deep |-> Deep(p), own |-> Own(p),
           deephits |-> DeepHits(p), dpc |-> PerCall(Deep(p), Hits(p)), opc |-> PerCall(Own(p), Hits(p))]
RECURSIVE Rows(_), KidRows(_, _)
KidRows(p, i) == IF i = 0 THEN <<>> ELSE KidRows(p, i - 1) \o Rows(Append(p, kids[p][i]))
Rows(p) == <<Row(p)>> \o KidRows(p, Len(kids[p]))

(* ---- flat layout ----------------------------------------------------------------- *)

Name(q) == FnOf(q[Len(q)])
Occurs(p, f) == {q \in Sub(p) \ {p} : Name(q) = f}
Functions(p) == {Name(q) : q \in Sub(p) \ {p}}
RECURSIVE SumOver(_, _)
SumOver(f, Q) == IF Q = {} THEN 0 ELSE LET q == CHOOSE x \in Q : TRUE IN f[q] + SumOver(f, Q \ {q})
Sum(F(_), Q) == SumOver([q \in Q |-> F(q)], Q)
FlatRow(p, f) == LET Q == Occurs(p, f) IN
  [fn |-> f, hits |-> Sum(Hits, Q), deephits |-> Sum(DeepHits, Q), own |-> Sum(Own, Q), deep |-> Sum(Deep, Q),
   dpc |-> PerCall(Sum(Deep, Q), Sum(Hits, Q)), opc |-> PerCall(Sum(Own, Q), Sum(Hits, Q))]
Flat(p) == {FlatRow(p, f) : f \in Functions(p)}

(* ---- model ------------------------------------------------------------------------- *)

Next == \E p \in DOMAIN tree :
   \/ \E c \in Code, k \in {"rec", "void", "default"} : Len(p) < MaxDepth /\ (Add(p, c, k) \/ Ensure(p, c, k))
   \/ \E c \in Code : Drop(p, c)
   \/ Clear(p)
   \/ \E h \in {0, 1}, t \in {0, 1, 2} : tree[p].hits + h <= MaxHits /\ tree[p].time + t <= MaxTime /\ Record(p, h, t)
Spec == Init /\ [][Next]_vars

Tree == \A p \in DOMAIN tree : p = <<>> \/ (SubSeq(p, 1, Len(p) - 1) \in DOMAIN tree /\ Has(SubSeq(p, 1, Len(p) - 1), p[Len(p)]))
SameDomain == DOMAIN tree = DOMAIN kids
Descendants == \A p \in DOMAIN tree : DeepHits(p) = Sum(Hits, Sub(p))
VoidTime == \A p \in DOMAIN tree : tree[p].void =>
   Deep(p) = Sum(Deep, {q \in Sub(p) : ~tree[q].void /\ \A r \in Sub(p) : Below(r, q) /\ r # q => tree[r].void})
FlatTotals == LET F == Functions(<<>>) IN
   /\ Sum(Hits, DOMAIN tree) = Hits(<<>>) + Sum(LAMBDA f : FlatRow(<<>>, f).hits, F)
   /\ Sum(Own, DOMAIN tree) = Own(<<>>) + Sum(LAMBDA f : FlatRow(<<>>, f).own, F)
RowPerNode == Len(Rows(<<>>)) = Cardinality(DOMAIN tree)
Elsewhere == [][\E p \in DOMAIN tree : \A q \in DOMAIN tree : ~Below(p, q) => (q \in DOMAIN tree' /\ tree'[q] = tree[q])]_vars
=============================================================================
