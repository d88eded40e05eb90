---------------------------- MODULE BuilderTrace ----------------------------
(* Recorded calls of the real problem builder; several builders by id. *)
EXTENDS BuilderDefs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES l, bs
vars == <<l, bs>>
Init == l = 1 /\ bs = [id \in {} |-> New("", "")]
Ev == Trace[l]
Ck(ok, exp) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> l, event |-> Ev, expected |-> exp])) /\ FALSE
Fine == Ev.e = ""
Op(S) == l <= Len(Trace) /\ Ev.op \in S /\ l' = l + 1
b == bs[Ev.id]
Becomes(x) == bs' = (Ev.id :> x) @@ bs /\ Ck(Fine, "ok")
DoNew == Op({"new"}) /\ Becomes(New(Ev.n, Ev.d))
DoObj == Op({"obj"}) /\ Becomes(AddObject(b, Ev.n, Ev.t))
DoInit == Op({"init"}) /\ Becomes(AddInit(b, <<Ev.q>>))
DoSet == Op({"setinit"}) /\ Becomes(AddInit(b, Ev.qs))
DoGoal == Op({"goal"}) /\ Becomes(SetGoal(b, Ev.g))
DoStr == Op({"str"}) /\ UNCHANGED bs /\ Ck(Fine /\ Writes(Ev.r, b), b)
DoExpr == Op({"expr"}) /\ UNCHANGED bs /\ Ck(Fine /\ Reads(Read(Ev.r), Ev.g), Ev.g)
(* the helpers: a text that is not a call is refused *)
DoParse == /\ Op({"parse"}) /\ UNCHANGED bs
           /\ IF Ev.bad THEN Ck(Ev.e = "ValueError" /\ Ev.r = <<"ValueError", "ValueError">>, "ValueError")
              ELSE Ck(Fine /\ Ev.r.head = Ev.q[1] /\ Ev.r.args = Tail(Ev.q) /\ Ev.r.prop = Ev.q, Ev.q)
DoText == /\ Op({"atom"}) /\ UNCHANGED bs /\ Ck(Fine /\ Read(Ev.r) = L([i \in DOMAIN Ev.q |-> W(Ev.q[i])]), Ev.q)
Next == DoNew \/ DoObj \/ DoInit \/ DoSet \/ DoGoal \/ DoStr \/ DoExpr \/ DoParse \/ DoText
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
