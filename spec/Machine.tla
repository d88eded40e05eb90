------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The planning problem as a state machine: states are sets of             *)
(* propositions, steps are valid calls.  TLC explores every state that can *)
(* be reached (VERIF_ALL: from every state) in each of the given domains,  *)
(* checks what the semantics in Pddl must satisfy there, and prints every  *)
(* state with all that the specification says about it, to be asked of the *)
(* real library.                                                           *)
(***************************************************************************)
EXTENDS Pddl, Json, IOUtils

Doms == JsonDeserialize(IOEnv.VERIF_DOMS)
Everywhere == IOEnv.VERIF_ALL = "1"
MaxDepth == atoi(IOEnv.VERIF_DEPTH)
Ctxs == [i \in DOMAIN Doms |-> TLCEval(MkCtx(Doms[i]))]

VARIABLES d, s, n
vars == <<d, s, n>>
View == <<d, s>>
C == Ctxs[d]

Starts(c) ==
  IF Everywhere THEN SUBSET Range(GroundProps(c))
  ELSE LET k == Close(c, SS(Range(c.D.init))) IN IF k.err = "" THEN {k.p} ELSE {}
Init == /\ d \in DOMAIN Doms
        /\ s \in Starts(Ctxs[d])
        /\ n = 0
Do(call) == LET r == CallSucc(C, s, call)
            IN r.err = "" /\ s' = r.p /\ n' = n + 1 /\ d' = d
Next == n < MaxDepth /\ \E call \in Range(ValidCalls(C, s)) : Do(call)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Typed == n > 0 \/ ~Everywhere => s \subseteq Range(GroundProps(C)) \cup Range(C.D.init)

(* derived predicates: a function of the rest, evaluated after every action *)
Derived ==
  LET t == Derive(C, s)
  IN /\ Derive(C, t) = t
     /\ Derive(C, s \ DerivedAtoms(C)) = t
     /\ t \ DerivedAtoms(C) = s \ DerivedAtoms(C)
     /\ n > 0 => t = s
     /\ \A i \in DOMAIN C.D.drvs : \A j \in DOMAIN C.dtup[i] :
          Holds(C, t, C.D.drvs[i].body, Env(C.D.drvs[i].ps, C.dtup[i][j]))
            => (<<C.D.drvs[i].p>> \o C.dtup[i][j]) \in t

(* closing: accepted by the axiom check, changes nothing accepted, idempotent *)
Closing ==
  LET k == Close(C, SS(s))
  IN k.err = "" => /\ ValidState(C, k.p)
                   /\ Close(C, SS(k.p)).p = k.p
                   /\ ValidState(C, s) => k.p = s

Forms == {<<C.D.goal, NoEnv>>} \cup
         UNION {{<<C.D.acts[a].pre, Env(C.D.acts[a].ps, C.tup[a][i])>> : i \in DOMAIN C.tup[a]} : a \in DOMAIN C.D.acts}
Few(X) == IF Cardinality(X) <= 5 THEN SUBSET X ELSE {{}, X} \cup {{x} : x \in X}
(* what is said of partial knowledge is true in the state it is knowledge of;
   with all that matters known the answer is the state's *)
Knowledge ==
  \A fe \in Forms :
    LET A == AtomsOf(C, fe[1], fe[2])
        v == Holds(C, s, fe[1], fe[2])
    IN \A U \in Few(A) :
         LET a == Holds3(C, (A \ U) \cap s, (A \ U) \ s, fe[1], fe[2])
         IN /\ a = "T" => v
            /\ a = "F" => ~v
            /\ U = {} => a # "U"

(* an effect touches nothing but the literals written in it, those of the
   axioms and derived propositions *)
RECURSIVE Touched(_, _)
Touched(e, env) ==
  LET G(as) == {Ground(env, as[i]) : i \in DOMAIN as}
  IN G(e.add) \cup G(e.del)
     \cup UNION {UNION {Touched(e.fa[i].e, Env(e.fa[i].ps, t) @@ env) : t \in Range(Tuples(C.ofType, e.fa[i].ps))}
                 : i \in DOMAIN e.fa}
     \cup UNION {Touched(e.cd[i].e, env) : i \in DOMAIN e.cd}
ByAxioms == UNION {UNION {Touched(C.D.axs[i].imp, C.ax[i][j].env) : j \in DOMAIN C.ax[i]} : i \in DOMAIN C.D.axs}
Frame ==
  \A a \in DOMAIN C.D.acts : \A i \in DOMAIN C.tup[a] :
    LET r == Succ(C, s, a, C.tup[a][i])
        may == Touched(C.D.acts[a].eff, Env(C.D.acts[a].ps, C.tup[a][i])) \cup ByAxioms \cup DerivedAtoms(C)
    IN r.err = "" => (r.p \ s) \cup (s \ r.p) \subseteq may

(* an axiom instance that an action triggers has been applied: knowledge of a
   complete state and the state itself change alike *)
Total(X) == LET G == Range(GroundProps(C)) \cup X IN PS(X, G \ X)
Alike ==
  \A a \in DOMAIN C.D.acts : \A i \in DOMAIN C.tup[a] :
    LET r == ApplyAct(C, SS(s), a, C.tup[a][i])
        q == ApplyAct(C, Total(s), a, C.tup[a][i])
    IN r.err = q.err /\ (r.err = "" => r.p = q.p /\ (r.ch > 0) = (q.ch > 0) /\ q.p \cap q.n = {})

(* sanity of the hand-written domains *)
Sane ==
  C.D.name = "blocks" /\ ~Everywhere =>
    \A i \in DOMAIN C.D.objs :
      LET b == C.D.objs[i].n
      IN /\ Cardinality({q \in s : q[1] \in {"on", "ontable", "holding"} /\ q[2] = b}) = 1
         /\ <<"above", b, b>> \notin s

(* everything the specification says about a state *)
Reply(call) ==
  LET r == CallSucc(C, s, call) IN [call |-> call, e |-> r.err, s |-> r.p]
Tell ==
  LET k == Close(C, SS(s))
      all == FlattenSeq([a \in DOMAIN C.D.acts |-> [i \in DOMAIN C.tup[a] |-> <<C.D.acts[a].n>> \o C.tup[a][i]]])
  IN PrintT("BEH " \o ToJson([d |-> d, s |-> s, valid |-> ValidCalls(C, s), goal |-> GoalHolds(C, s),
       next |-> [i \in DOMAIN all |-> Reply(all[i])], ok |-> ValidState(C, s),
       close |-> [e |-> k.err, s |-> k.p], derive |-> Derive(C, s)]))
=============================================================================
