----------------------------- MODULE SearchDefs -----------------------------
(***************************************************************************)
(* Tree search: what the three searches may yield.                         *)
(*                                                                         *)
(* An instance g is [ch, goals, w]: the children of each node in order     *)
(* (different nodes within one list), the goal nodes and the weights.  A   *)
(* search from node 1 works on paths; it does not look for repeated nodes. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

IsGoal(g, p) == p[Len(p)] \in g.goals
Kids(g, p) == LET c == g.ch[p[Len(p)]] IN [i \in DOMAIN c |-> Append(p, c[i])]
Open(g, d, p) == ~IsGoal(g, p) /\ Len(p) <= d        \* has children to search

(* declaratively: paths from the root of at most d steps to a goal, with no *)
(* goal before the end                                                      *)
RECURSIVE PathsOf(_, _)
PathsOf(g, n) ==          \* all paths of n steps
  IF n = 0 THEN {<<1>>}
  ELSE UNION {{Append(p, c) : c \in Range(g.ch[p[Len(p)]])} : p \in PathsOf(g, n - 1)}
GoalPaths(g, d) ==
  {p \in UNION {PathsOf(g, n) : n \in 0..d} :
     IsGoal(g, p) /\ \A i \in 1..(Len(p) - 1) : p[i] \notin g.goals}

(* child order *)
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Before(g, p, q) ==        \* p comes before q, level by level in child order
  \/ Len(p) < Len(q)
  \/ /\ Len(p) = Len(q)
     /\ \E i \in 2..Len(p) : /\ \A j \in 1..(i - 1) : p[j] = q[j]
                             /\ p[i] # q[i]
                             /\ Pos(g.ch[p[i - 1]], p[i]) < Pos(g.ch[p[i - 1]], q[i])

NoRepeats(out) == Cardinality(Range(out)) = Len(out)
Exactly(g, d, out) == NoRepeats(out) /\ Range(out) = GoalPaths(g, d)

(* breadth first: exactly the goal paths, shortest first, then child order *)
BfsSeq(g, d) == SetToSortSeq(GoalPaths(g, d), LAMBDA p, q : Before(g, p, q))
BfsOk(g, d, out) == out = BfsSeq(g, d)

(* depth first: the paths below any node are contiguous (whichever child is *)
(* searched first)                                                          *)
IsPref(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
DfsOk(g, d, out) ==
  /\ Exactly(g, d, out)
  /\ \A i, k \in DOMAIN out : i < k =>
       LET common == CHOOSE n \in 1..Len(out[i]) :
                       /\ IsPref(SubSeq(out[i], 1, n), out[k])
                       /\ \A m \in (n + 1)..Len(out[i]) : ~IsPref(SubSeq(out[i], 1, m), out[k])
       IN \A j \in (i + 1)..(k - 1) : IsPref(SubSeq(out[i], 1, common), out[j])

(* best first: some order of continuing with a pending path that no other  *)
(* pending path precedes yields these paths                                 *)
RECURSIVE Cost(_, _, _)
Cost(g, p, i) == IF i > Len(p) THEN 0 ELSE g.w[p[i]] + Cost(g, p, i + 1)
Best(g, F) == {p \in F : \A q \in F : Cost(g, p, 1) <= Cost(g, q, 1)}
Expand(g, d, F, p) == (F \ {p}) \cup (IF Open(g, d, p) THEN Range(Kids(g, p)) ELSE {})
RECURSIVE Emissions(_, _, _, _)
(* [goal path, pending paths after it] that can come next from any of Fs *)
Emissions(g, d, Fs, seen) ==
  IF Fs = {} THEN {}
  ELSE LET pops == UNION {{<<p, F>> : p \in Best(g, F)} : F \in Fs}
           goal == {x \in pops : IsGoal(g, x[1])}
           next == {Expand(g, d, x[2], x[1]) : x \in pops \ goal}
       IN {[p |-> x[1], F |-> x[2] \ {x[1]}] : x \in goal}
            \cup Emissions(g, d, next \ seen, seen \cup next)
RECURSIVE Follow(_, _, _, _, _)
Follow(g, d, Fs, out, i) ==
  LET em == Emissions(g, d, Fs, Fs)
  IN IF i > Len(out) THEN em = {}
     ELSE LET F2 == {x.F : x \in {y \in em : y.p = out[i]}}
          IN F2 # {} /\ Follow(g, d, F2, out, i + 1)
AStarOk(g, d, out) == Exactly(g, d, out) /\ Follow(g, d, {{<<1>>}}, out, 1)
=============================================================================
