------------------------------ MODULE Builder ------------------------------
(* Every history of builder calls over a small vocabulary, and every goal   *)
(* expression up to a depth; printed to be run with the real builder.       *)
EXTENDS BuilderDefs, Json, IOUtils
Depth == atoi(IOEnv.VERIF_DEPTH)
VARIABLES b, hist
vars == <<b, hist>>

Props == {<<"on", "a", "b">>, <<"free">>, <<"at-x", "o_1">>}
Atoms == {[k |-> "atom", p |-> "p", a |-> <<>>], [k |-> "atom", p |-> "q", a |-> <<"?x", "b">>]}
RECURSIVE Exprs(_)
Exprs(d) ==
  IF d = 0 THEN Atoms
  ELSE LET E == Exprs(d - 1)
       IN Atoms \cup {[k |-> "not", f |-> x] : x \in E}
            \cup {[k |-> op, fs |-> fs] : op \in {"and", "or"}, fs \in {<<>>} \cup {<<x>> : x \in E} \cup
                                                                       (Atoms \X E) \cup (E \X Atoms)}
            \cup {[k |-> q, v |-> "x", t |-> t, f |-> x] : q \in {"forall", "exists"}, t \in {"", "t"}, x \in E}
            \cup {[k |-> "when", c |-> x, f |-> y] : x \in Atoms, y \in E}
Goals == {[k |-> "and", fs |-> <<>>], [k |-> "atom", p |-> "on", a |-> <<"a", "b">>],
          [k |-> "not", f |-> [k |-> "atom", p |-> "free", a |-> <<>>]],
          [k |-> "forall", v |-> "x", t |-> "t", f |-> [k |-> "or", fs |-> <<[k |-> "atom", p |-> "free", a |-> <<"?x">>]>>]]}

Calls == {[op |-> "obj", n |-> n, t |-> t] : n \in {"a", "o_1"}, t \in {"", "t"}}
         \cup {[op |-> "init", q |-> q, how |-> h] : q \in Props, h \in {"call", "pddl"}}
         \cup {[op |-> "setinit", qs |-> SetToSeq(X)] : X \in SUBSET Props}
         \cup {[op |-> "goal", g |-> g] : g \in Goals}
Do(c) == CASE c.op = "obj" -> AddObject(b, c.n, c.t)
           [] c.op = "init" -> AddInit(b, <<c.q>>)
           [] c.op = "setinit" -> AddInit(b, c.qs)
           [] OTHER -> SetGoal(b, c.g)
Emit(h) == PrintT("BEH " \o ToJson(h))
Init == b = New("pb", "dom") /\ hist = <<>>
        /\ Emit([calls |-> <<>>]) /\ \A x \in Exprs(IF Depth > 2 THEN 2 ELSE 1) : Emit([expr |-> x])
Next == Len(hist) < Depth /\ \E c \in Calls :
          b' = Do(c) /\ hist' = Append(hist, c) /\ Emit([calls |-> hist'])
Spec == Init /\ [][Next]_vars

(* reading the plainest writing of a builder gives it back *)
RECURSIVE Plain(_)
P(ws) == <<"(">> \o ws \o <<")">>
Plain(f) ==
  CASE f.k = "atom" -> P(<<f.p>> \o f.a)
    [] f.k \in {"and", "or"} -> P(<<f.k>> \o FlattenSeq([i \in DOMAIN f.fs |-> Plain(f.fs[i])]))
    [] f.k = "not" -> P(<<"not">> \o Plain(f.f))
    [] f.k = "when" -> P(<<"when">> \o Plain(f.c) \o Plain(f.f))
    [] OTHER -> P(<<f.k>> \o P(IF f.t = "" THEN <<"?" \o f.v>> ELSE <<"?" \o f.v, "-", f.t>>) \o Plain(f.f))
PlainText ==
  P(<<"define">> \o P(<<"problem", b.name>>) \o P(<<":domain", b.domain>>)
    \o P(<<":objects">> \o FlattenSeq([i \in DOMAIN b.objs |-> <<b.objs[i].n, "-", TypeOf(b.objs[i].t)>>]))
    \o P(<<":init">> \o FlattenSeq([i \in DOMAIN b.init |-> P(b.init[i])]))
    \o P(<<":goal">> \o Plain(b.goal)))
RoundTrip == Writes(PlainText, b)
(* leaving something out, or an extra parenthesis, is noticed *)
Strict == /\ ~Writes(PlainText \o <<")">>, b) /\ ~Writes(Front(PlainText), b)
          /\ \A n \in {"zz"} : ~Writes(PlainText, AddObject(b, n, ""))
          /\ ~Writes(PlainText, AddInit(b, << <<"zz">> >>))
          /\ ~Writes(PlainText, SetGoal(b, [k |-> "not", f |-> b.goal]))
=============================================================================
