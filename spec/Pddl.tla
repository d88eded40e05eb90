-------------------------------- MODULE Pddl --------------------------------
(***************************************************************************)
(* The semantics of tmigimatsu/symbolic: objects and types, propositions,  *)
(* formulas on complete and partial states, effects, axioms, derived       *)
(* predicates, successor states, plans and planner expansion.              *)
(*                                                                         *)
(* A domain D is data (read from JSON):                                    *)
(*   types  <<[n,p]>>     consts, objs <<[n,t]>>    preds <<[n,ps]>>        *)
(*   acts   <<[n,ps,pre,eff]>>   axs <<[ps,ctx,imp]>>                       *)
(*   drvs   <<[p,ps,body]>>      init <<prop>>      goal                    *)
(* ps is a sequence of [n,t]; a proposition is <<name, arg1, ...>>; a      *)
(* formula is [k |-> "atom", p, a], [k |-> "and"/"or", fs], [k |-> "not",  *)
(* f], [k |-> "forall"/"exists", ps, f]; an effect is [fa, add, del, cd].  *)
(* Variables start with "?".                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoEnv == [v \in {} |-> ""]
Max2(a, b) == IF a > b THEN a ELSE b
Objs(D) == D.consts \o D.objs

-----------------------------------------------------------------------------
(* Types, objects and typed tuples                                         *)

TypeNames(D) == {D.types[i].n : i \in DOMAIN D.types} \cup {"object"}
Parent(D, t) ==
  LET I == {i \in DOMAIN D.types : D.types[i].n = t}
  IN IF I = {} THEN "" ELSE LET p == D.types[CHOOSE i \in I : TRUE].p
                            IN IF p = t THEN "" ELSE p
RECURSIVE Ancestors(_, _)
(* t, its ancestors and "object" *)
Ancestors(D, t) ==
  IF t = "object" \/ t = "" THEN {"object"} ELSE {t} \cup Ancestors(D, Parent(D, t))
RECURSIVE AncestorSeq(_, _)
AncestorSeq(D, t) ==
  IF t = "object" \/ t = "" THEN <<"object">> ELSE <<t>> \o AncestorSeq(D, Parent(D, t))

OfType(D, anc, t) ==
  LET sel == SelectSeq(Objs(D), LAMBDA o : t \in anc[o.t])
  IN TLCEval([i \in DOMAIN sel |-> sel[i].n])

RECURSIVE TuplesOf(_)
(* Cartesian product of a sequence of sequences, last varying fastest *)
TuplesOf(opts) ==
  IF opts = <<>> THEN << <<>> >>
  ELSE LET hs == Head(opts)
           rest == TuplesOf(Tail(opts))
           nr == Len(rest)
       IN TLCEval([k \in 1..(Len(hs) * nr) |->
                     <<hs[((k - 1) \div nr) + 1]>> \o rest[((k - 1) % nr) + 1]])

Tuples(ofType, ps) == TuplesOf([i \in DOMAIN ps |-> ofType[ps[i].t]])

Env(ps, args) == TLCEval([v \in {ps[i].n : i \in DOMAIN ps} |->
                            args[CHOOSE i \in DOMAIN ps : ps[i].n = v]])
Term(env, a) == IF a \in DOMAIN env THEN env[a] ELSE a
Ground(env, f) == <<f.p>> \o [i \in DOMAIN f.a |-> Term(env, f.a[i])]

-----------------------------------------------------------------------------
(* Dependencies of derived predicates, for stratification                  *)
RECURSIVE Deps(_, _)
Deps(f, pos) ==
  CASE f.k = "atom" -> {<<f.p, pos>>}
    [] f.k \in {"and", "or"} -> UNION {Deps(f.fs[i], pos) : i \in DOMAIN f.fs}
    [] f.k = "not" -> Deps(f.f, ~pos)
    [] OTHER -> Deps(f.f, pos)

Levels(D) ==
  LET names == {D.drvs[i].p : i \in DOMAIN D.drvs}
      dep == [n \in names |-> UNION {Deps(D.drvs[i].body, TRUE) :
                                       i \in {j \in DOMAIN D.drvs : D.drvs[j].p = n}}]
      SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
      RECURSIVE It(_, _)
      It(k, lv) ==
        IF k = 0 THEN lv
        ELSE It(k - 1, [n \in names |->
               SetMax({lv[d[1]] + (IF d[2] THEN 0 ELSE 1) :
                         d \in {e \in dep[n] : e[1] \in names}})])
  IN It(Cardinality(names) + 1, [n \in names |-> 0])

(***************************************************************************)
(* Everything about a domain that is computed once.                        *)
(***************************************************************************)
MkCtx(D) ==
  LET T == TypeNames(D)
      anc == TLCEval([t \in T |-> Ancestors(D, t)])
      ofType == TLCEval([t \in T |-> OfType(D, anc, t)])
      os == Objs(D)
      objType == TLCEval([o \in {os[i].n : i \in DOMAIN os} |->
                            os[CHOOSE i \in DOMAIN os : os[i].n = o].t])
      Inst(x) == LET ts == Tuples(ofType, x.ps)
                 IN TLCEval([i \in DOMAIN ts |->
                              LET e == Env(x.ps, ts[i])
                              IN [env |-> e, q |-> Ground(e, x.ctx)]])
      lv == TLCEval(Levels(D))
  IN [D |-> D, anc |-> anc, ofType |-> ofType, objType |-> objType,
      typePreds |-> {t \in T : ofType[t] # <<>>},
      tup |-> TLCEval([i \in DOMAIN D.acts |-> Tuples(ofType, D.acts[i].ps)]),
      ax |-> TLCEval([i \in DOMAIN D.axs |-> Inst(D.axs[i])]),
      dtup |-> TLCEval([i \in DOMAIN D.drvs |-> Tuples(ofType, D.drvs[i].ps)]),
      derived |-> {D.drvs[i].p : i \in DOMAIN D.drvs},
      levels |-> lv,
      nlevels |-> IF DOMAIN lv = {} THEN 0
                  ELSE 1 + (CHOOSE m \in {lv[n] : n \in DOMAIN lv} :
                              \A n \in DOMAIN lv : lv[n] <= m)]

IsObj(C, o) == o \in DOMAIN C.objType
IsSub(C, o, t) == t \in C.anc[C.objType[o]]
ActIdx(C, name) == CHOOSE i \in DOMAIN C.D.acts : C.D.acts[i].n = name
HasAct(C, name) == \E i \in DOMAIN C.D.acts : C.D.acts[i].n = name
IsOrdinary(C, p) == p # "=" /\ p \notin C.typePreds

(* every typed ground proposition of the declared predicates, in order *)
GroundProps(C) ==
  FlattenSeq([i \in DOMAIN C.D.preds |->
    LET ts == Tuples(C.ofType, C.D.preds[i].ps)
    IN [j \in DOMAIN ts |-> <<C.D.preds[i].n>> \o ts[j]]])

-----------------------------------------------------------------------------
(* Formulas on complete states                                             *)
GroundHolds(C, S, q) ==
  IF q[1] = "=" THEN q[2] = q[3]
  ELSE IF q[1] \in C.typePreds THEN IsSub(C, q[2], q[1])
  ELSE q \in S

RECURSIVE Holds(_, _, _, _)
Holds(C, S, f, env) ==
  CASE f.k = "atom" -> GroundHolds(C, S, Ground(env, f))
    [] f.k = "and" -> \A i \in DOMAIN f.fs : Holds(C, S, f.fs[i], env)
    [] f.k = "or" -> \E i \in DOMAIN f.fs : Holds(C, S, f.fs[i], env)
    [] f.k = "not" -> ~Holds(C, S, f.f, env)
    [] f.k = "forall" -> LET ts == Tuples(C.ofType, f.ps)
                         IN \A i \in DOMAIN ts : Holds(C, S, f.f, Env(f.ps, ts[i]) @@ env)
    [] f.k = "exists" -> LET ts == Tuples(C.ofType, f.ps)
                         IN \E i \in DOMAIN ts : Holds(C, S, f.f, Env(f.ps, ts[i]) @@ env)

(* Formulas on partial states: "T", "F" or "U"; left to right, the first   *)
(* value that settles a connective wins, the first unknown stops.          *)
Neg3(v) == CASE v = "T" -> "F" [] v = "F" -> "T" [] OTHER -> "U"
Ground3(C, P, N, q) ==
  IF q[1] = "=" THEN (IF q[2] = q[3] THEN "T" ELSE "F")
  ELSE IF q[1] \in C.typePreds THEN (IF IsSub(C, q[2], q[1]) THEN "T" ELSE "F")
  ELSE IF q \in P THEN "T" ELSE IF q \in N THEN "F" ELSE "U"

RECURSIVE Holds3(_, _, _, _, _), All3(_, _, _, _, _, _, _)
Holds3(C, P, N, f, env) ==
  CASE f.k = "atom" -> Ground3(C, P, N, Ground(env, f))
    [] f.k = "not" -> Neg3(Holds3(C, P, N, f.f, env))
    [] f.k \in {"and", "or"} ->
         LET n == Len(f.fs)
             go == IF f.k = "and" THEN "T" ELSE "F"
             RECURSIVE At(_)
             At(i) == IF i > n THEN go
                      ELSE LET v == Holds3(C, P, N, f.fs[i], env)
                           IN IF v = go THEN At(i + 1) ELSE v
         IN At(1)
    [] OTHER -> All3(C, P, N, f, env, Tuples(C.ofType, f.ps), 1)
All3(C, P, N, f, env, ts, i) ==
  LET go == IF f.k = "forall" THEN "T" ELSE "F"
  IN IF i > Len(ts) THEN go
     ELSE LET v == Holds3(C, P, N, f.f, Env(f.ps, ts[i]) @@ env)
          IN IF v = go THEN All3(C, P, N, f, env, ts, i + 1) ELSE v

-----------------------------------------------------------------------------
(* Effects.  A configuration s is                                          *)
(*   [k "S"/"P", p, n, ch, err]: complete or partial state, the largest    *)
(* change code so far and the error, if any.                               *)
SS(p) == [k |-> "S", p |-> p, n |-> {}, ch |-> 0, err |-> ""]
PS(p, n) == [k |-> "P", p |-> p, n |-> n, ch |-> 0, err |-> ""]

(* change code of asserting (pos) or negating q *)
Code(s, q, pos) ==
  IF s.k = "S" THEN (IF (q \in s.p) = pos THEN 0 ELSE 1)
  ELSE IF pos THEN (IF q \in s.n THEN 1 ELSE 0) + (IF q \in s.p THEN 0 ELSE 1)
  ELSE (IF q \in s.p THEN 1 ELSE 0) + (IF q \in s.n THEN 0 ELSE 1)
Put(s, q, pos) ==
  IF pos THEN [s EXCEPT !.p = @ \cup {q}, !.n = @ \ {q}]
  ELSE [s EXCEPT !.p = @ \ {q}, !.n = IF s.k = "S" THEN {} ELSE @ \cup {q}]

HoldsIn(C, s, f, env) ==
  IF s.k = "S" THEN Holds(C, s.p, f, env) ELSE Holds3(C, s.p, s.n, f, env) = "T"

RECURSIVE Eff(_, _, _, _), Lit(_, _, _, _), Lits(_, _, _, _, _, _),
          Foralls(_, _, _, _, _, _), ForallAt(_, _, _, _, _, _),
          Conds(_, _, _, _, _), Fire(_, _, _, _, _, _)
Eff(C, s, e, env) ==
  LET s1 == Foralls(C, s, e.fa, env, 1, 0)
      s2 == Lits(C, s1, e.add, env, TRUE, 1)
      s3 == Lits(C, s2, e.del, env, FALSE, 1)
  IN Conds(C, s3, e.cd, env, 1)
Foralls(C, s, fa, env, i, dummy) ==
  IF i > Len(fa) \/ s.err # "" THEN s
  ELSE Foralls(C, ForallAt(C, s, fa[i], env, Tuples(C.ofType, fa[i].ps), 1), fa, env, i + 1, 0)
ForallAt(C, s, x, env, ts, i) ==
  IF i > Len(ts) \/ s.err # "" THEN s
  ELSE ForallAt(C, Eff(C, s, x.e, Env(x.ps, ts[i]) @@ env), x, env, ts, i + 1)
Lits(C, s, as, env, pos, i) ==
  IF i > Len(as) \/ s.err # "" THEN s
  ELSE Lits(C, Lit(C, s, Ground(env, as[i]), pos), as, env, pos, i + 1)
Lit(C, s, q, pos) ==
  IF ~IsOrdinary(C, q[1])
  THEN IF GroundHolds(C, {}, q) = pos THEN s ELSE [s EXCEPT !.err = "runtime_error"]
  ELSE LET c == Code(s, q, pos)
       IN IF c = 0 THEN s
          ELSE Fire(C, [Put(s, q, pos) EXCEPT !.ch = Max2(@, c)], q, pos, 1, 1)
(* apply, in order, every axiom instance whose context is the literal (q, pos) *)
Fire(C, s, q, pos, i, j) ==
  IF i > Len(C.D.axs) \/ s.err # "" THEN s
  ELSE IF C.D.axs[i].ctx.pos # pos \/ C.D.axs[i].ctx.p # q[1] \/ j > Len(C.ax[i])
  THEN Fire(C, s, q, pos, i + 1, 1)
  ELSE IF C.ax[i][j].q = q
  THEN Fire(C, Eff(C, s, C.D.axs[i].imp, C.ax[i][j].env), q, pos, i, j + 1)
  ELSE Fire(C, s, q, pos, i, j + 1)
Conds(C, s, cd, env, i) ==
  IF i > Len(cd) \/ s.err # "" THEN s
  ELSE Conds(C, IF HoldsIn(C, s, cd[i].c, env) THEN Eff(C, s, cd[i].e, env) ELSE s,
             cd, env, i + 1)

ApplyAct(C, s, a, args) == Eff(C, s, C.D.acts[a].eff, Env(C.D.acts[a].ps, args))

-----------------------------------------------------------------------------
(* Axioms as a whole                                                       *)
CtxHolds(C, s, i, j) ==   \* instance j of axiom i has a (known) true context
  LET q == C.ax[i][j].q
      v == IF s.k = "S" THEN (IF GroundHolds(C, s.p, q) THEN "T" ELSE "F")
           ELSE Ground3(C, s.p, s.n, q)
  IN v = IF C.D.axs[i].ctx.pos THEN "T" ELSE "F"

RECURSIVE AxApply(_, _, _, _)
(* apply axiom i to every instance from j on, in place *)
AxApply(C, s, i, j) ==
  IF j > Len(C.ax[i]) \/ s.err # "" THEN s
  ELSE AxApply(C, IF CtxHolds(C, s, i, j) THEN Eff(C, s, C.D.axs[i].imp, C.ax[i][j].env) ELSE s,
               i, j + 1)

(* one pass over all axioms; a partial state must not have knowledge reversed *)
RECURSIVE AxRound(_, _, _)
AxRound(C, s, i) ==
  IF i > Len(C.D.axs) \/ s.err # "" THEN s
  ELSE LET r == AxApply(C, [s EXCEPT !.ch = 0], i, 1)
           r2 == IF r.k = "P" /\ r.ch = 2 /\ r.err = "" THEN [r EXCEPT !.err = "runtime_error"] ELSE r
       IN AxRound(C, [r2 EXCEPT !.ch = Max2(@, s.ch)], i + 1)
RECURSIVE Close(_, _)
Close(C, s) ==
  LET r == AxRound(C, [s EXCEPT !.ch = 0], 1)
  IN IF r.err # "" \/ r.ch = 0 THEN r ELSE Close(C, r)

AxConsistent(C, S, i) ==
  \A j \in DOMAIN C.ax[i] :
    CtxHolds(C, SS(S), i, j) =>
      LET r == Eff(C, SS(S), C.D.axs[i].imp, C.ax[i][j].env) IN r.err = "" /\ r.ch = 0
ValidState(C, S) == \A i \in DOMAIN C.D.axs : AxConsistent(C, S, i)

(* partial states: close, failing on reversed knowledge *)
RECURSIVE PAxPass(_, _, _, _)
PAxPass(C, s, i, j) ==   \* one instance after the other, stop at a contradiction
  IF i > Len(C.D.axs) \/ s.err # "" THEN s
  ELSE IF j > Len(C.ax[i]) THEN PAxPass(C, s, i + 1, 1)
  ELSE IF ~CtxHolds(C, s, i, j) THEN PAxPass(C, s, i, j + 1)
  ELSE LET r == Eff(C, [s EXCEPT !.ch = 0], C.D.axs[i].imp, C.ax[i][j].env)
       IN IF r.err # "" \/ r.ch > 1 THEN [r EXCEPT !.err = "invalid"]
          ELSE PAxPass(C, [r EXCEPT !.ch = Max2(@, s.ch)], i, j + 1)
RECURSIVE PValidFrom(_, _)
PValidFrom(C, s) ==
  LET r == PAxPass(C, [s EXCEPT !.ch = 0], 1, 1)
  IN IF r.err # "" THEN FALSE ELSE IF r.ch = 0 THEN TRUE ELSE PValidFrom(C, r)
PValidState(C, P, N) == PValidFrom(C, PS(P, N))
(* the same for a single axiom *)
RECURSIVE PAxOne(_, _, _, _), PAxOneFrom(_, _, _)
PAxOne(C, s, i, j) ==
  IF j > Len(C.ax[i]) \/ s.err # "" THEN s
  ELSE IF ~CtxHolds(C, s, i, j) THEN PAxOne(C, s, i, j + 1)
  ELSE LET r == Eff(C, [s EXCEPT !.ch = 0], C.D.axs[i].imp, C.ax[i][j].env)
       IN IF r.err # "" \/ r.ch > 1 THEN [r EXCEPT !.err = "invalid"]
          ELSE PAxOne(C, [r EXCEPT !.ch = Max2(@, s.ch)], i, j + 1)
PAxOneFrom(C, s, i) ==
  LET r == PAxOne(C, [s EXCEPT !.ch = 0], i, 1)
  IN IF r.err # "" THEN FALSE ELSE IF r.ch = 0 THEN TRUE ELSE PAxOneFrom(C, r, i)

-----------------------------------------------------------------------------
(* Derived predicates: least model, stratum by stratum                     *)
RuleHeads(C, S, lv) ==
  UNION {LET d == C.D.drvs[i]
         IN IF C.levels[d.p] # lv THEN {}
            ELSE {<<d.p>> \o C.dtup[i][j] :
                    j \in {k \in DOMAIN C.dtup[i] :
                             Holds(C, S, d.body, Env(d.ps, C.dtup[i][k]))}}
         : i \in DOMAIN C.D.drvs}
RECURSIVE Lfp(_, _, _), Strata(_, _, _)
Lfp(C, S, lv) == LET T == S \cup RuleHeads(C, S, lv) IN IF T = S THEN S ELSE Lfp(C, T, lv)
Strata(C, S, lv) == IF lv >= C.nlevels THEN S ELSE Strata(C, Lfp(C, S, lv), lv + 1)
(* propositions that some rule could derive: head predicate and typed arguments *)
DerivedAtoms(C) ==
  UNION {{<<C.D.drvs[i].p>> \o C.dtup[i][j] : j \in DOMAIN C.dtup[i]} : i \in DOMAIN C.D.drvs}
Derive(C, S) == IF C.derived = {} THEN S ELSE Strata(C, S \ DerivedAtoms(C), 0)

(* one rule alone *)
RECURSIVE OneLfp(_, _, _)
OneLfp(C, S, i) ==
  LET d == C.D.drvs[i]
      T == S \cup {<<d.p>> \o C.dtup[i][j] :
                    j \in {k \in DOMAIN C.dtup[i] : Holds(C, S, d.body, Env(d.ps, C.dtup[i][k]))}}
  IN IF T = S THEN S ELSE OneLfp(C, T, i)
DeriveOne(C, S, i) == OneLfp(C, S \ {<<C.D.drvs[i].p>> \o C.dtup[i][j] : j \in DOMAIN C.dtup[i]}, i)

-----------------------------------------------------------------------------
(* Calls, successors, plans                                                *)
Pre(C, S, a, args) == Holds(C, S, C.D.acts[a].pre, Env(C.D.acts[a].ps, args))
(* successor configuration: effects, then derived predicates *)
Succ(C, S, a, args) ==
  LET r == ApplyAct(C, SS(S), a, args)
  IN IF r.err # "" THEN r ELSE [r EXCEPT !.p = Derive(C, r.p)]

ValidArgs(C, S, a) == SelectSeq(C.tup[a], LAMBDA t : Pre(C, S, a, t))
ValidCalls(C, S) ==   \* sequence of <<name, arg1, ...>>
  FlattenSeq([a \in DOMAIN C.D.acts |->
    LET v == ValidArgs(C, S, a) IN [i \in DOMAIN v |-> <<C.D.acts[a].n>> \o v[i]]])

WellTyped(C, call) ==
  LET a == ActIdx(C, call[1])
      ps == C.D.acts[a].ps
  IN \A i \in DOMAIN ps : IsSub(C, call[i + 1], ps[i].t)
(* the error that rejects a call, "" if it is well formed *)
CallError(C, call) ==
  IF ~HasAct(C, call[1]) THEN "runtime_error"
  ELSE IF \E i \in 2..Len(call) : ~IsObj(C, call[i]) THEN "runtime_error"
  ELSE IF Len(C.D.acts[ActIdx(C, call[1])].ps) # Len(call) - 1 THEN "invalid_argument"
  ELSE IF ~WellTyped(C, call) THEN "invalid_argument" ELSE ""

CallSucc(C, S, call) ==
  IF CallError(C, call) # "" THEN [SS(S) EXCEPT !.err = CallError(C, call)]
  ELSE Succ(C, S, ActIdx(C, call[1]), Tail(call))
CallValid(C, S, call) == Pre(C, S, ActIdx(C, call[1]), Tail(call))

RECURSIVE RunCalls(_, _, _, _)
RunCalls(C, s, calls, i) ==
  IF i > Len(calls) \/ s.err # "" THEN s ELSE RunCalls(C, CallSucc(C, s.p, calls[i]), calls, i + 1)

RECURSIVE PlanAt(_, _, _, _)
(* [ok, err]: is the plan valid from S, or which error stops the check *)
PlanAt(C, S, calls, i) ==
  IF i > Len(calls) THEN [ok |-> Holds(C, S, C.D.goal, NoEnv), err |-> ""]
  ELSE IF CallError(C, calls[i]) # "" THEN [ok |-> FALSE, err |-> CallError(C, calls[i])]
  ELSE IF ~CallValid(C, S, calls[i]) THEN [ok |-> FALSE, err |-> ""]
  ELSE LET r == CallSucc(C, S, calls[i])
       IN IF r.err # "" THEN [ok |-> FALSE, err |-> r.err] ELSE PlanAt(C, r.p, calls, i + 1)

GoalHolds(C, S) == Holds(C, S, C.D.goal, NoEnv)

-----------------------------------------------------------------------------
(* Normal forms: sequences of conjunctions [pos, neg] of literals          *)
RECURSIVE AtomsOf(_, _, _)
(* the ground propositions a formula's truth depends on *)
AtomsOf(C, f, env) ==
  CASE f.k = "atom" -> LET q == Ground(env, f) IN IF IsOrdinary(C, q[1]) THEN {q} ELSE {}
    [] f.k \in {"and", "or"} -> UNION {AtomsOf(C, f.fs[i], env) : i \in DOMAIN f.fs}
    [] f.k = "not" -> AtomsOf(C, f.f, env)
    [] OTHER -> LET ts == Tuples(C.ofType, f.ps)
                IN UNION {AtomsOf(C, f.f, Env(f.ps, ts[i]) @@ env) : i \in DOMAIN ts}

RECURSIVE EffForm(_)
(* what an effect asserts of the state it leads to, as a formula *)
EffForm(e) ==
  [k |-> "and",
   fs |-> [i \in DOMAIN e.fa |-> [k |-> "forall", ps |-> e.fa[i].ps, f |-> EffForm(e.fa[i].e)]]
          \o e.add
          \o [i \in DOMAIN e.del |-> [k |-> "not", f |-> e.del[i]]]
          \o [i \in DOMAIN e.cd |-> [k |-> "or", fs |-> <<[k |-> "not", f |-> e.cd[i].c], EffForm(e.cd[i].e)>>]]]

ConjHolds(C, S, x) == /\ \A i \in DOMAIN x.pos : GroundHolds(C, S, x.pos[i])
                      /\ \A i \in DOMAIN x.neg : ~GroundHolds(C, S, x.neg[i])
(* r is [some, conj]: no form is false, a form without conjunctions true *)
DnfHolds(C, S, r) ==
  r.some /\ (r.conj = <<>> \/ \E i \in DOMAIN r.conj : ConjHolds(C, S, r.conj[i]))
DnfAtoms(C, r) ==
  UNION {{q \in Range(r.conj[i].pos) \cup Range(r.conj[i].neg) : IsOrdinary(C, q[1])} : i \in DOMAIN r.conj}
DnfClean(r) ==
  /\ \A i \in DOMAIN r.conj : Range(r.conj[i].pos) \cap Range(r.conj[i].neg) = {}
  /\ \A i, j \in DOMAIN r.conj : i # j =>
       ~(Range(r.conj[i].pos) \subseteq Range(r.conj[j].pos) /\ Range(r.conj[i].neg) \subseteq Range(r.conj[j].neg))

-----------------------------------------------------------------------------
(* Planner expansion.  path: sequence of states from the root to the node. *)
Children(C, path) ==
  LET S == path[Len(path)]
      vc == ValidCalls(C, S)
      all == [i \in DOMAIN vc |-> [a |-> vc[i], s |-> CallSucc(C, S, vc[i]).p]]
  IN SelectSeq(all, LAMBDA x : x.s \notin Range(path))

(* Plans: [acts, states] of paths from the root to goals, level by level.   *)
Kids(C, n) ==
  LET ch == Children(C, n.states)
  IN [i \in DOMAIN ch |-> [acts |-> Append(n.acts, ch[i].a), states |-> Append(n.states, ch[i].s)]]
RECURSIVE PlansFrom(_, _, _)
(* goal paths at most d steps below the nodes of one level, in order *)
PlansFrom(C, level, d) ==
  LET G(n) == GoalHolds(C, n.states[Len(n.states)])
      open == SelectSeq(level, LAMBDA n : ~G(n))
  IN SelectSeq(level, G)
       \o IF d = 0 \/ open = <<>> THEN <<>>
          ELSE PlansFrom(C, FlattenSeq([i \in DOMAIN open |-> Kids(C, open[i])]), d - 1)
Plans(C, S, d) == PlansFrom(C, <<[acts |-> <<>>, states |-> <<S>>]>>, d)
=============================================================================
