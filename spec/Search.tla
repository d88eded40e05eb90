------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The searches as state machines, on every small tree, set of goals and   *)
(* depth limit.  Checked: whatever a search has yielded is a goal path, it *)
(* ends, and what it yielded by then is what SearchDefs allows.  Every     *)
(* instance is printed to be run through the real searches.                *)
(***************************************************************************)
EXTENDS SearchDefs, Json, IOUtils

MaxN == atoi(IOEnv.VERIF_N)          \* nodes
MaxD == atoi(IOEnv.VERIF_D)          \* depth limit
Exact == IOEnv.VERIF_EXACT = "1"     \* only trees with exactly MaxN nodes
Weights == 0..atoi(IOEnv.VERIF_W)

VARIABLES g, d, algo, pend, out
vars == <<g, d, algo, pend, out>>

Trees == UNION {{[i \in 1..n |-> SelectSeq([k \in 1..n |-> k], LAMBDA k : k > 1 /\ f[k] = i)] :
                   f \in {h \in [1..n -> 1..n] : \A k \in 2..n : h[k] < k /\ h[1] = 1}} :
                n \in IF Exact THEN {MaxN} ELSE 1..MaxN}

Init == /\ \E c \in Trees :
             \E G \in SUBSET (1..Len(c)) :
               \E w \in [1..Len(c) -> Weights] : g = [ch |-> c, goals |-> G, w |-> w]
        /\ d \in 0..MaxD
        /\ algo \in (IF \A i \in DOMAIN g.w : g.w[i] = 0 THEN {"bfs", "dfs"} ELSE {}) \cup {"astar"}
        /\ pend = << <<1>> >> /\ out = <<>>
        /\ PrintT("BEH " \o ToJson([ch |-> g.ch, goals |-> g.goals, w |-> g.w, d |-> d, algo |-> algo]))

Take(i) ==
  LET p == pend[i]
      rest == RemoveAt(pend, i)
      kids == IF Open(g, d, p) THEN Kids(g, p) ELSE <<>>
  IN /\ out' = IF IsGoal(g, p) THEN Append(out, p) ELSE out
     /\ pend' = IF algo = "dfs" THEN kids \o rest ELSE rest \o kids
     /\ UNCHANGED <<g, d, algo>>
Next == /\ pend # <<>>
        /\ \/ algo \in {"bfs", "dfs"} /\ Take(1)
           \/ algo = "astar" /\ \E i \in DOMAIN pend : pend[i] \in Best(g, Range(pend)) /\ Take(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pend = <<>>
Sound == Range(out) \subseteq GoalPaths(g, d) /\ NoRepeats(out)
Complete == Done => Exactly(g, d, out)
Ordered == Done => CASE algo = "bfs" -> BfsOk(g, d, out)
                     [] algo = "dfs" -> DfsOk(g, d, out)
                     [] OTHER -> AStarOk(g, d, out)
BfsPrefix == algo = "bfs" => IsPref(out, BfsSeq(g, d))
Ends == <>Done
=============================================================================
