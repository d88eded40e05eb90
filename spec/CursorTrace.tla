---------------------------- MODULE CursorTrace ----------------------------
(* Recorded uses of the combination generator, judged by position alone. *)
EXTENDS Pddl, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE l
Init == l = 1
Ev == Trace[l]
Ck(ok, exp) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> l, event |-> Ev, expected |-> exp])) /\ FALSE
Fine == Ev.e = ""
Fails(kind) == Ck(Ev.e = kind, [error |-> kind])

(* the combinations, by definition: position k has, for each option, the    *)
(* digit of k in the mixed radix of the sizes of the options after it       *)
RECURSIVE Weight(_, _)
Weight(o, c) == IF c >= Len(o) THEN 1 ELSE Len(o[c + 1]) * Weight(o, c + 1)
Size(o) == IF o = <<>> THEN 1 ELSE Len(o[1]) * Weight(o, 1)
At(o, k) == [c \in DOMAIN o |-> o[c][((k \div Weight(o, c)) % Len(o[c])) + 1]]

Moved(m, p, o) ==
  CASE m.m = "++" -> <<p + 1, o>>
    [] m.m = "--" -> <<p - 1, o>>
    [] m.m = "p++" -> <<p + 1, p>>
    [] m.m = "p--" -> <<p - 1, p>>
    [] m.m = "swap" -> <<o, p>>
    [] m.m = "save" -> <<p, p>>
    [] m.m \in {"+", "c", "n"} -> <<p + m.n, o>>
    [] m.m \in {"-", "m"} -> <<p - m.n, o>>
RECURSIVE WalkOk(_, _, _, _, _, _)
(* what the cursor shows after each move *)
WalkOk(o, N, rev, i, p, q) ==
  LET r == Ev.r[i]
      Show(x) == IF x < 0 \/ x >= N THEN <<>> ELSE At(o, IF rev THEN N - 1 - x ELSE x)
      show == Show(p)
      rel == IF p < q THEN <<"<", "<=", "#">> ELSE IF p = q THEN <<"<=", "=", ">=">> ELSE <<"#", ">=", ">">>
  IN /\ Ck(/\ r.pos = p /\ r.show = show /\ r.again = show /\ r.prev = Show(p - 1) /\ r.next = Show(p + 1)
           /\ r.rel = rel /\ r.diff = p - q,
           [i |-> i, pos |-> p, show |-> show])
     /\ IF i > Len(Ev.moves) THEN Len(Ev.r) = i
        ELSE LET x == Moved(Ev.moves[i], p, q) IN WalkOk(o, N, rev, i + 1, x[1], x[2])

Ok ==
  LET o == Ev.opts
      N == Size(o)
      Same == TuplesOf(o) = [k \in 1..N |-> At(o, k - 1)]   \* the two definitions agree
  IN CASE Ev.op = "new" ->
            /\ IF \E i \in DOMAIN o : o[i] = <<>> THEN Fails("invalid_argument") ELSE Ck(Fine /\ Ev.r = N /\ Same, N)
       [] Ev.op = "default" -> Ck(Fine /\ Ev.r.size = 0 /\ Ev.r.empty /\ Ev.r.be, "empty")
       [] Ev.op = "size" -> Ck(Fine /\ Ev.r.size = N /\ ~Ev.r.empty, N)
       [] Ev.op \in {"all", "call"} -> Ck(Fine /\ Ev.r = TuplesOf(o), TuplesOf(o))
       [] Ev.op \in {"rall", "crall"} -> Ck(Fine /\ Ev.r = Reverse(TuplesOf(o)), Reverse(TuplesOf(o)))
       [] Ev.op = "at" -> LET k == IF Ev.k < 0 THEN Ev.k + N ELSE Ev.k
                          IN IF k < 0 \/ k >= N THEN Fails("out_of_range") ELSE Ck(Fine /\ Ev.r = At(o, k), At(o, k))
       [] Ev.op = "idx" -> Ck(Fine /\ Ev.r = At(o, Ev.k), At(o, Ev.k))
       [] Ev.op = "find" -> LET K == {k \in 0..(N - 1) : At(o, k) = Ev.q}
                            IN IF K = {} THEN Fails("out_of_range") ELSE Ck(Fine /\ K = {Ev.r}, K)
       [] Ev.op = "walk" -> Ck(Fine, "no error") /\ WalkOk(o, N, Ev.rev, 1, IF Ev.at = "end" THEN N ELSE 0,
                                            IF Ev.at = "end" THEN N ELSE 0)
Next == l <= Len(Trace) /\ Ok /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
