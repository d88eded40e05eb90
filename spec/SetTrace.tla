------------------------------ MODULE SetTrace ------------------------------
(* Recorded long histories of two hash sets, judged by their contents alone: *)
(* what they hold, in one order for all ways of listing them, and whether    *)
(* they are equal, whatever operations led there.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE l
Init == l = 1
Ev == Trace[l]
Ck(ok, exp) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> l, event |-> Ev, expected |-> exp])) /\ FALSE

Sorted(X) == SetToSortSeq(X, LAMBDA a, b : a < b)
After(o, A, B) ==
  CASE o.op = "insert" -> <<A \cup {o.x}, B, o.x \notin A>>
    [] o.op = "erase" -> <<A \ {o.x}, B, o.x \in A>>
    [] o.op = "copy" -> <<A, A, TRUE>>
    [] OTHER -> <<B, A, TRUE>>
RECURSIVE WalkOk(_, _, _)
WalkOk(i, A, B) ==
  IF i > Len(Ev.ops) THEN Len(Ev.r) = Len(Ev.ops)
  ELSE LET x == After(Ev.ops[i], A, B)
           r == Ev.r[i]
           same == x[1] = x[2]
       IN /\ Ck(/\ r.ch = x[3] /\ r.size = Cardinality(x[1]) /\ r.empty = (x[1] = {})
                /\ Len(r.l) = Cardinality(x[1]) /\ ToSet(r.l) = x[1] /\ r.back = r.l /\ r.has = Sorted(x[1])
                /\ r.eq = same /\ r.ne = ~same
                /\ IF same THEN ~r.lt /\ ~r.gt ELSE r.lt # r.gt,
                [step |-> i, changed |-> x[3], holds |-> x[1], equal |-> same])
          /\ WalkOk(i + 1, x[1], x[2])
Next == l <= Len(Trace) /\ Ck(Ev.e = "", "no error") /\ WalkOk(1, ToSet(Ev.start), {}) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
