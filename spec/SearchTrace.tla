----------------------------- MODULE SearchTrace ----------------------------
(* What the real searches yielded on explicit trees and graphs. *)
EXTENDS SearchDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE l
Init == l = 1
Ev == Trace[l]
G == [ch |-> Ev.ch, goals |-> Range(Ev.goals), w |-> Ev.w]
Ck(ok, exp) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> l, event |-> Ev, expected |-> exp])) /\ FALSE
Ok == IF Ev.e # "" THEN FALSE  \* Ck reports it
      ELSE LET out == Ev.r.plans IN
        CASE Ev.timed -> IsPref(out, BfsSeq(G, Ev.d))   \* may end early
          [] Ev.algo = "bfs" -> ~Ev.r.more /\ BfsOk(G, Ev.d, out)
          [] Ev.algo = "dfs" -> ~Ev.r.more /\ DfsOk(G, Ev.d, out)
          [] OTHER -> ~Ev.r.more /\ AStarOk(G, Ev.d, out)
Next == l <= Len(Trace) /\ Ck(Ok, BfsSeq(G, Ev.d)) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
