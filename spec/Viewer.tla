-------------------------------- MODULE Viewer --------------------------------
(* The statistics viewer: which result it shows, how the table lists it, and    *)
(* how keys move through it.  A result is a tree: a function from call paths     *)
(* (sequences of functions, <<>> is the root) to [h |-> hits, t |-> time].       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES res,      \* the results that may be given, a sequence of trees
          rank,     \* order of the functions by module and name
          v         \* the viewer

Larger(a, b) == IF a > b THEN a ELSE b
Start == [kind |-> "base", active |-> FALSE, paused |-> FALSE,
          final |-> 0,      \* the latest result, 0 is none
          frozen |-> 0,     \* the latest one when the viewer was paused
          layout |-> "nested", order |-> "function",
          exp |-> {},       \* functions the user expanded
          open |-> {},      \* expanded rows
          loose |-> {},     \* hidden rows that may be expanded or not
          focus |-> <<>>]   \* path of the focused row

Shown(w) == IF w.paused THEN w.frozen ELSE w.final

(* ---- what is listed ------------------------------------------------------------- *)

Fn(p) == p[Len(p)]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Below(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p       \* q is p or below it
Above(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
RECURSIVE Sum(_, _)
Sum(f, Q) == IF Q = {} THEN 0 ELSE LET q == CHOOSE x \in Q : TRUE IN f[q] + Sum(f, Q \ {q})

NodeFig(t, p) == LET S == {q \in DOMAIN t : Below(p, q)}
                     K == {q \in S : Len(q) = Len(p) + 1} IN
   [hits |-> t[p].h, deep |-> t[p].t, own |-> Larger(0, t[p].t - Sum([q \in K |-> t[q].t], K)),
    deephits |-> Sum([q \in S |-> t[q].h], S)]
Occurs(t, f) == {p \in DOMAIN t : p # <<>> /\ Fn(p) = f}
FlatFig(t, f) == LET Q == Occurs(t, f)
                     g == [q \in Q |-> NodeFig(t, q)] IN
   [hits |-> Sum([q \in Q |-> g[q].hits], Q), deep |-> Sum([q \in Q |-> g[q].deep], Q),
    own |-> Sum([q \in Q |-> g[q].own], Q), deephits |-> Sum([q \in Q |-> g[q].deephits], Q)]
Paths(w) == IF Shown(w) = 0 THEN {<<>>}
            ELSE LET t == res[Shown(w)] IN
                 IF w.layout = "nested" THEN DOMAIN t ELSE {<<>>} \cup {<<Fn(p)>> : p \in DOMAIN t \ {<<>>}}
Fig(w, p) == LET t == res[Shown(w)] IN
             IF w.layout = "nested" \/ p = <<>> THEN NodeFig(t, p) ELSE FlatFig(t, Fn(p))
Leaf(w, p) == \A q \in Paths(w) : ~Above(p, q)

(* ---- sorting --------------------------------------------------------------------- *)

Orders(k) == CASE k = "base" -> <<"function">>
               [] k = "tracing" -> <<"function", "hits", "own", "opc", "deep", "dpc">>
               [] k = "sampling" -> <<"function", "hits", "deephits">>
(* Which of the captions belongs to a sort key.                                     *)
Column(k, o) == LET c == [function |-> 0, hits |-> 1, own |-> 2, opc |-> 3, deep |-> 5, dpc |-> 6, deephits |-> 3] IN c[o]
Default(k) == CASE k = "base" -> "function" [] k = "tracing" -> "deep" [] OTHER -> "deephits"
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Shift(k, o, d) == LET s == Orders(k) IN s[((IndexOf(s, o) - 1 + d + Len(s)) % Len(s)) + 1]

Deep1(a) == IF a.deephits = 0 THEN <<a.deep, 1>> ELSE IF a.hits = 0 THEN <<0, 1>> ELSE <<a.deep, a.hits>>
Own1(a) == IF a.hits = 0 THEN <<a.own, 1>> ELSE <<a.own, a.hits>>
More_(x, y) == x[1] * y[2] > y[1] * x[2]
Same(x, y) == x[1] * y[2] = y[1] * x[2]
(* The row of function f with figures a has to be above the one of g with b.        *)
Before(o, f, a, g, b) ==
   CASE o = "function" -> rank[f] < rank[g]
     [] o = "hits" -> a.hits > b.hits
     [] o = "deephits" -> a.deephits > b.deephits
     [] o = "deep" -> a.deep > b.deep
     [] o = "own" -> a.own > b.own \/ (a.own = b.own /\ a.deep > b.deep)
     [] o = "dpc" -> More_(Deep1(a), Deep1(b))
     [] o = "opc" -> More_(Own1(a), Own1(b)) \/ (Same(Own1(a), Own1(b)) /\ More_(Deep1(a), Deep1(b)))

(* ---- visible rows ------------------------------------------------------------------ *)

(* The rows around the focus are listed even if a function that encloses it is        *)
(* folded (which takes a function that is called recursively).                        *)
Listed(w, open, focus) ==
   {p \in Paths(w) \ {<<>>} : \A i \in 1..(Len(p) - 1) : LET q == SubSeq(p, 1, i) IN q \in open \/ Above(q, focus)}

Kids(w, p) == {q \in Paths(w) : q # <<>> /\ Parent(q) = p}
Arrange(w, Q) ==
   LET figs == [q \in Q |-> Fig(w, q)] IN
   SortSeq(SetToSeq(Q), LAMBDA q, r : \/ Before(w.order, Fn(q), figs[q], Fn(r), figs[r])
                                      \/ (~Before(w.order, Fn(r), figs[r], Fn(q), figs[q]) /\ Fn(q) < Fn(r)))
RECURSIVE RowsAt(_, _), RowsOf(_, _)
RowsOf(w, s) == IF s = <<>> THEN <<>> ELSE RowsAt(w, Head(s)) \o RowsOf(w, Tail(s))
RowsAt(w, p) == (IF p = <<>> THEN <<>> ELSE <<p>>)
             \o (IF p = <<>> \/ p \in w.open \/ Above(p, w.focus) THEN RowsOf(w, Arrange(w, Kids(w, p))) ELSE <<>>)
Rows(w) == RowsAt(w, <<>>)
RECURSIVE Hot(_, _)
Hot(w, p) == IF Kids(w, p) = {} THEN p ELSE Hot(w, Head(Arrange(w, Kids(w, p))))

(* ---- changes ------------------------------------------------------------------------ *)

RECURSIVE Nearest(_, _)
Nearest(p, P) == IF p \in P THEN p ELSE Nearest(Parent(p), P)
(* A new tree of rows: the focus keeps its path, expanded functions are expanded.      *)
Refresh(w) == IF Shown(w) = 0 THEN w
              ELSE [w EXCEPT !.focus = Nearest(@, Paths(w)), !.loose = {},
                             !.open = {p \in Paths(w) \ {<<>>} : Fn(p) \in w.exp /\ ~Leaf(w, p)}]

GetResult(w, r) == LET u == [w EXCEPT !.final = r] IN IF w.paused THEN u ELSE Refresh(u)
Pause(w) == [w EXCEPT !.paused = TRUE, !.frozen = w.final]
Resume(w) == Refresh([w EXCEPT !.paused = FALSE, !.frozen = 0])
SetActive(w, b) == [w EXCEPT !.active = b]
SetKind(w, k) == IF k = w.kind THEN w
                 ELSE Refresh([w EXCEPT !.kind = k, !.layout = "nested", !.order = Default(k),
                                        !.exp = {}, !.open = {}, !.loose = {}, !.focus = <<>>])

(* Other rows of the function that are not listed may follow or not.                   *)
Others(w, p) == {q \in Paths(w) : q # <<>> /\ q # p /\ Fn(q) = Fn(p) /\ ~Leaf(w, q)} \ Listed(w, w.open, w.focus)
Expand(w, p) == [w EXCEPT !.open = @ \cup {p}, !.exp = @ \cup {Fn(p)}, !.loose = (@ \ {p}) \cup Others(w, p)]
Fold(w, p) == [w EXCEPT !.open = @ \ {p}, !.exp = @ \ {Fn(p)}, !.loose = (@ \ {p}) \cup Others(w, p)]
Focus(w, p) == [w EXCEPT !.focus = p]
FoldParent(w) == IF Len(w.focus) > 1 THEN Focus(Fold(w, Parent(w.focus)), Parent(w.focus)) ELSE w
(* All functions from the focus down to the hotspot are expanded.                      *)
ExpandTo(w, hot) ==
  LET chain == {SubSeq(hot, 1, i) : i \in Larger(1, Len(w.focus))..(Len(hot) - 1)}
      fns == {Fn(q) : q \in chain}
      hidden == {q \in Paths(w) : q # <<>> /\ Fn(q) \in fns /\ ~Leaf(w, q)} \ Listed(w, w.open, w.focus) IN
  [w EXCEPT !.open = @ \cup chain, !.exp = @ \cup fns, !.loose = (@ \cup hidden) \ chain]

FirstRow(rows, p) == LET I == {i \in 1..Len(rows) : Len(rows[i]) = Len(p) + 1 /\ Below(p, rows[i])} IN
                     IF I = {} THEN p ELSE rows[CHOOSE i \in I : \A j \in I : i <= j]
At(rows, p) == LET I == {i \in 1..Len(rows) : rows[i] = p} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Among(seen, P, otherwise) == IF seen \in P THEN seen ELSE otherwise

(* A key pressed: rows are those listed before, hot is the hotspot, seen is the focus  *)
(* where the key leaves a choice.                                                      *)
Press(w, key, rows, hot, seen) ==
  LET p == w.focus
      flat == w.layout = "flat" IN
  CASE key = "]" -> LET u == [w EXCEPT !.order = Shift(w.kind, @, 1)] IN IF u = w THEN w ELSE Refresh(u)
    [] key = "[" -> LET u == [w EXCEPT !.order = Shift(w.kind, @, -1)] IN IF u = w THEN w ELSE Refresh(u)
    [] key = "\\" -> Refresh([w EXCEPT !.layout = IF flat THEN "nested" ELSE "flat"])
    [] key \in {"space", "enter"} -> IF w.paused THEN Resume(w) ELSE Pause(w)
    [] Shown(w) = 0 -> w
    [] key = "esc" -> Focus(w, <<>>)
    [] key = ">" -> Focus(ExpandTo(w, hot), hot)
    [] key = "down" -> IF At(rows, p) < Len(rows) THEN Focus(w, rows[At(rows, p) + 1]) ELSE w
    [] key = "up" -> IF p = <<>> THEN w
                     ELSE IF At(rows, p) > 1 THEN Focus(w, rows[At(rows, p) - 1])
                     ELSE Focus(w, Among(seen, {p, <<>>}, p))
    [] key \in {"home", "end", "page up", "page down"} ->
                     Focus(w, Among(seen, {<<>>} \cup {rows[i] : i \in 1..Len(rows)}, p))
    [] key = "right" -> IF flat THEN w
                        ELSE IF p = <<>> THEN Focus(w, FirstRow(rows, p))
                        ELSE IF Leaf(w, p) THEN w
                        ELSE IF p \in w.open THEN Focus(w, FirstRow(rows, p))
                        ELSE Expand(w, p)
    [] key = "left" -> IF flat \/ p = <<>> THEN w
                       ELSE IF Leaf(w, p) THEN (IF Len(p) > 1 THEN FoldParent(w) ELSE Focus(w, Among(seen, {p, <<>>}, p)))
                       ELSE IF p \in w.open THEN Fold(w, p)
                       ELSE IF Len(p) > 1 THEN Focus(w, Parent(p)) ELSE w
    [] key = "+" -> IF p = <<>> \/ Leaf(w, p) THEN w ELSE Expand(w, p)
    [] key = "-" -> IF p = <<>> THEN w
                    ELSE IF ~Leaf(w, p) THEN Fold(w, p)
                    ELSE IF Len(p) > 1 THEN FoldParent(w) ELSE Focus(w, Among(seen, {p, <<>>}, p))
    [] OTHER -> w

Keys == {"]", "[", "\\", "space", "esc", ">", "down", "up", "right", "left", "+", "-", "x"}

(* ---- model ----------------------------------------------------------------------------- *)

Small == <<(<<>> :> [h |-> 0, t |-> 0]) @@ (<<1>> :> [h |-> 1, t |-> 3]) @@ (<<1, 2>> :> [h |-> 2, t |-> 3])
           @@ (<<1, 2, 1>> :> [h |-> 1, t |-> 1]) @@ (<<1, 2, 1, 3>> :> [h |-> 1, t |-> 1]) @@ (<<3>> :> [h |-> 1, t |-> 4]),
           (<<>> :> [h |-> 0, t |-> 0]) @@ (<<1>> :> [h |-> 2, t |-> 5]) @@ (<<1, 3>> :> [h |-> 1, t |-> 4])
           @@ (<<3>> :> [h |-> 3, t |-> 0]) @@ (<<3, 2>> :> [h |-> 1, t |-> 2])>>
Init == res = Small /\ rank = <<2, 1, 3>> /\ v = Start
Go(w) == v' = w /\ UNCHANGED <<res, rank>>
Arrive == \E r \in 1..Len(res) : Go(GetResult(v, r))
Key(k) == \E s \in {v.focus, <<>>} : Go(Press(v, k, Rows(v), IF Shown(v) = 0 THEN <<>> ELSE Hot(v, v.focus), s))
CONSTANT KindsUsed
Next == \/ Arrive
        \/ \E k \in Keys : Key(k)
        \/ \E b \in BOOLEAN : Go(SetActive(v, b))
        \/ \E k \in KindsUsed : Go(SetKind(v, k))
vars == <<res, rank, v>>
Spec == Init /\ [][Next]_vars
(* Activity is orthogonal to everything else.                                        *)
Less == v.active = FALSE

FocusExists == v.focus \in Paths(v)
OpenExists == v.open \subseteq Paths(v)
RowsListed == LET r == Rows(v) IN {r[i] : i \in 1..Len(r)} = Listed(v, v.open, v.focus) /\ Len(r) = Cardinality(Listed(v, v.open, v.focus))
TopLevel == \A p \in Paths(v) : Len(p) = 1 => p \in Listed(v, v.open, v.focus)
Sorted == LET r == Rows(v) IN \A i, j \in 1..Len(r) : i < j /\ Parent(r[i]) = Parent(r[j]) =>
            ~Before(v.order, Fn(r[j]), Fig(v, r[j]), Fn(r[i]), Fig(v, r[i]))
PausedShows == [][v.paused /\ v'.paused => Shown(v') = Shown(v)]_vars
LatestShows == [][~v'.paused => Shown(v') = v'.final]_vars
PauseKeeps == [][(~v.paused /\ v'.paused) => Shown(v') = Shown(v)]_vars
ExpandedStay == [][Arrive => v'.exp = v.exp /\ \A p \in Paths(v') \ {<<>>} : ~v.paused => ((p \in v'.open) <=> (Fn(p) \in v.exp /\ ~Leaf(v', p)))]_vars
FocusKept == [][Arrive => Below(v'.focus, v.focus) /\ (v.focus \in Paths(v') => v'.focus = v.focus)]_vars
HotspotOpen == [][Key(">") => \A i \in (Len(v.focus) + 1)..(Len(v'.focus) - 1) : SubSeq(v'.focus, 1, i) \in v'.open]_vars
Toggles == [][Key("\\") => v'.layout # v.layout]_vars
=============================================================================
