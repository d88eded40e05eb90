------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace specification: a session of calls on the real library, recorded   *)
(* by the conformance driver, must be a behaviour of the semantics in Pddl. *)
(*                                                                         *)
(* Every event carries the operation (op), its arguments, the kind of      *)
(* exception it ended with (e, "" if none) and its full result (r).  The   *)
(* session state is                                                        *)
(*   pd   loaded problems: id -> [d: index of the domain data, ini: initial *)
(*        state]                 cur  the problem in use                    *)
(*   st   state registers        ps   partial-state registers               *)
(*   en   enumerators: name -> [d: domain data, k: "act" or "pred", i: which *)
(*        one], i = 0 for one of nothing                                     *)
(*   ord  what operator< has been seen to say (pairs of contents)           *)
(* One action per group of operations; an event no action allows ends the   *)
(* behaviour early, which the postcondition rejects.                        *)
(***************************************************************************)
EXTENDS Pddl, Json, IOUtils

Doms == JsonDeserialize(IOEnv.VERIF_DOMS)
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ctxs == [i \in DOMAIN Doms |-> TLCEval(MkCtx(Doms[i]))]

VARIABLES l, pd, cur, st, ps, ord, en
vars == <<l, pd, cur, st, ps, ord, en>>

Init == /\ l = 1 /\ pd = NoEnv /\ cur = "" /\ st = NoEnv /\ ps = NoEnv /\ en = NoEnv
        /\ ord = [s |-> {}, p |-> {}, q |-> {}, o |-> {}]

Ev == Trace[l]
Op(S) == l <= Len(Trace) /\ Ev.op \in S
C == Ctxs[pd[cur].d]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
S(k) == IF k \in DOMAIN st THEN st[k] ELSE {}
P(k) == IF k \in DOMAIN ps THEN ps[k] ELSE [p |-> {}, n |-> {}]

(* the event agrees with what the specification says; otherwise say so *)
Ck(ok, exp) ==
  IF ok THEN TRUE
  ELSE PrintT("MISMATCH " \o ToJson([line |-> l, event |-> Ev, expected |-> exp])) /\ FALSE
Fine == Ev.e = ""
Res(v) == Ck(Fine /\ Ev.r = v, v)
Fails(kind) == Ck(Ev.e = kind, [error |-> kind])
(* either the error, or the given check of the result *)
ErrOr(err, ok, exp) == IF err # "" THEN Fails(err) ELSE Ck(Fine /\ ok, exp)

IsSet(seq, X) == Len(seq) = Cardinality(X) /\ Range(seq) = X
IsPart(r, x) == IsSet(r.pos, x.p) /\ IsSet(r.neg, x.n)
Next1 == l' = l + 1
Keep == UNCHANGED <<pd, cur, st, ps, ord, en>>
SetS(k, v) == st' = Upd(st, k, v) /\ UNCHANGED <<pd, cur, ps, ord, en>>
SetP(k, v) == ps' = Upd(ps, k, v) /\ UNCHANGED <<pd, cur, st, ord, en>>

Join(ws, sep) == FoldLeft(LAMBDA acc, w : IF acc = "" THEN w ELSE acc \o sep \o w, "", ws)
CallStr(q) == q[1] \o "(" \o Join(Tail(q), ", ") \o ")"
PddlStr(q) == "(" \o Join(q, " ") \o ")"
Strs(X) == {CallStr(q) : q \in X}

-----------------------------------------------------------------------------
(* Loading                                                                 *)
Typed(os) == [i \in DOMAIN os |-> <<os[i].n, os[i].t>>]
TypeSeq(D) == <<"object">> \o [i \in DOMAIN D.types |-> D.types[i].n]
Head1(n, vs) == CallStr(<<n>> \o [j \in DOMAIN vs |-> vs[j].n])
SummaryOk(c, r, ini) ==
  LET D == c.D
      short == "short" \in DOMAIN r   \* as the Python module has it
  IN
  /\ r.name = D.name
  /\ r.objects = Typed(Objs(D))
  /\ r.constants = Typed(D.consts)
  /\ IsSet(r.init, ini)
  /\ Len(r.actions) = Len(D.acts)
  /\ \A i \in DOMAIN D.acts : /\ r.actions[i].name = D.acts[i].n
                              /\ r.actions[i].params = Typed(D.acts[i].ps)
                              /\ r.actions[i].str = Head1(D.acts[i].n, D.acts[i].ps)
  /\ Len(r.predicates) = Len(D.preds)
  /\ \A i \in DOMAIN D.preds : /\ r.predicates[i].name = D.preds[i].n
                               /\ r.predicates[i].params = Typed(D.preds[i].ps)
                               /\ r.predicates[i].str = Head1(D.preds[i].n, D.preds[i].ps)
  /\ Len(r.axioms) = Len(D.axs)
  /\ \A i \in DOMAIN D.axs : /\ r.axioms[i].str = Head1("axiom", D.axs[i].ps)
                             /\ short \/ /\ r.axioms[i].sign = (IF D.axs[i].ctx.pos THEN "+" ELSE "-")
                                         /\ r.axioms[i].name = D.axs[i].ctx.p
                                         /\ r.axioms[i].params = Typed(D.axs[i].ps)
                                         /\ r.axioms[i].args = D.axs[i].ctx.a
  /\ Len(r.derived) = Len(D.drvs)
  /\ \A i \in DOMAIN D.drvs : /\ r.derived[i].str = Head1(D.drvs[i].p, D.drvs[i].ps)
                              /\ short \/ /\ r.derived[i].name = D.drvs[i].p
                                          /\ r.derived[i].params = Typed(D.drvs[i].ps)
  /\ short \/ /\ r.names.objects = [i \in DOMAIN Objs(D) |-> Objs(D)[i].n]
              /\ r.names.actions = [i \in DOMAIN D.acts |-> D.acts[i].n]
              /\ r.names.list = Join(r.names.objects, ", ")
  /\ {<<r.objmap[i].t, r.objmap[i].os>> : i \in DOMAIN r.objmap} =
       {<<t, c.ofType[t]>> : t \in {u \in DOMAIN c.ofType : c.ofType[u] # <<>>}}

Load == /\ Op({"load"}) /\ Next1
        /\ LET c == Ctxs[Ev.d]
               w == Range(c.D.init)
               k == IF Ev.flag THEN Close(c, SS(w)) ELSE SS(w)
           IN /\ ErrOr(k.err, SummaryOk(c, Ev.r, k.p), [d |-> Ev.d, init |-> k.p])
              /\ pd' = IF k.err = "" THEN Upd(pd, Ev.id, [d |-> Ev.d, ini |-> k.p]) ELSE pd
              /\ cur' = IF k.err = "" THEN Ev.id ELSE cur
        /\ UNCHANGED <<st, ps, ord, en>>
(* something that is not a readable domain or problem *)
LoadBad == Op({"loadbad"}) /\ Next1 /\ Keep /\ Ck(Ev.e # "", [error |-> "any"])
(* a domain by itself has no problem to add an object to *)
AddNone == Op({"addnone"}) /\ Next1 /\ Keep /\ Ck(Ev.e # "", [error |-> "any"])
Use == Op({"use"}) /\ Next1 /\ cur' = Ev.id /\ UNCHANGED <<pd, st, ps, ord, en>>
Reset == /\ Op({"reset"}) /\ Next1
         /\ pd' = NoEnv /\ cur' = "" /\ st' = NoEnv /\ ps' = NoEnv /\ en' = NoEnv
         /\ ord' = [s |-> {}, p |-> {}, q |-> {}, o |-> {}]
(* The whole problem as operator<< lists it (variables without their '?').  *)
(* Axioms are listed as actions without a name.                             *)
Bare(s) == IF s # "" /\ SubSeq(s, 1, 1) = "?" THEN SubSeq(s, 2, Len(s)) ELSE s
BareL(xs) == [i \in DOMAIN xs |-> Bare(xs[i])]
BareVars(vs) == [i \in DOMAIN vs |-> [n |-> Bare(vs[i].n), t |-> vs[i].t]]
BareAtom(a) == [p |-> a.p, a |-> BareL(a.a)]
RECURSIVE BareF(_), BareE(_)
BareF(f) ==
  CASE f.k = "atom" -> [k |-> "atom", p |-> f.p, a |-> BareL(f.a)]
    [] f.k = "not" -> [k |-> "not", f |-> BareF(f.f)]
    [] f.k \in {"and", "or"} -> [k |-> f.k, fs |-> [i \in DOMAIN f.fs |-> BareF(f.fs[i])]]
    [] f.k \in {"forall", "exists"} -> [k |-> f.k, ps |-> BareVars(f.ps), f |-> BareF(f.f)]
BareE(e) == [add |-> [i \in DOMAIN e.add |-> BareAtom(e.add[i])],
             del |-> [i \in DOMAIN e.del |-> BareAtom(e.del[i])],
             fa |-> [i \in DOMAIN e.fa |-> [ps |-> BareVars(e.fa[i].ps), e |-> BareE(e.fa[i].e)]],
             cd |-> [i \in DOMAIN e.cd |-> [c |-> BareF(e.cd[i].c), e |-> BareE(e.cd[i].e)]]]
PrintOk(D, r, withProblem) ==
  LET ctx(a) == LET f == [k |-> "atom", p |-> a.p, a |-> BareL(a.a)] IN IF a.pos THEN f ELSE [k |-> "not", f |-> f]
      part(named) == SelectSeq(r.acts, LAMBDA a : (a.n # "") = named)
  IN
  /\ "unreadable" \notin DOMAIN r
  /\ r.name = D.name /\ r.types = D.types /\ r.consts = D.consts
  /\ r.preds = [i \in DOMAIN D.preds |-> [n |-> D.preds[i].n, ps |-> BareVars(D.preds[i].ps)]]
  /\ part(TRUE) = [i \in DOMAIN D.acts |-> [n |-> D.acts[i].n, ps |-> BareVars(D.acts[i].ps),
                                            pre |-> BareF(D.acts[i].pre), eff |-> BareE(D.acts[i].eff)]]
  /\ part(FALSE) = [i \in DOMAIN D.axs |-> [n |-> "", ps |-> BareVars(D.axs[i].ps), pre |-> ctx(D.axs[i].ctx),
                                            eff |-> BareE(D.axs[i].imp)]]
  /\ r.problem = IF ~withProblem THEN <<>>
                 ELSE <<[name |-> D.name \o "-p", domain |-> D.name, objs |-> D.objs,
                         init |-> [add |-> [i \in DOMAIN D.init |-> [p |-> D.init[i][1], a |-> Tail(D.init[i])]],
                                   del |-> <<>>, fa |-> <<>>, cd |-> <<>>],
                         goal |-> BareF(D.goal)]>>
Listing == /\ Op({"print"}) /\ Next1 /\ Keep
           /\ Ck(Fine /\ PrintOk(C.D, Ev.r, Ev.prob), C.D)
Summ == /\ Op({"summary"}) /\ Next1 /\ Keep
        /\ Ck(Fine /\ SummaryOk(C, Ev.r, pd[cur].ini), "summary")
(* objects added or removed: Ev.d is the domain data with the resulting objects *)
AddObj == /\ Op({"addobj"}) /\ Next1
          /\ Doms[Ev.d].objs = Append(C.D.objs, [n |-> Ev.n, t |-> Ev.t])
          /\ Doms[Ev.d].consts = C.D.consts
          /\ pd' = [pd EXCEPT ![cur].d = Ev.d]
          /\ Ck(Fine /\ SummaryOk(Ctxs[Ev.d], Ev.r, pd[cur].ini), "summary with object")
          /\ UNCHANGED <<cur, st, ps, ord, en>>
DelObj == /\ Op({"delobj"}) /\ Next1
          /\ Doms[Ev.d].objs = SelectSeq(C.D.objs, LAMBDA o : o.n # Ev.n)
          /\ Doms[Ev.d].consts = SelectSeq(C.D.consts, LAMBDA o : o.n # Ev.n)
          /\ pd' = [pd EXCEPT ![cur].d = Ev.d]
          /\ Ck(Fine /\ SummaryOk(Ctxs[Ev.d], Ev.r, pd[cur].ini), "summary without object")
          /\ UNCHANGED <<cur, st, ps, ord, en>>
BackPtr == /\ Op({"backptr"}) /\ Next1 /\ Keep
           /\ Ck(Fine /\ \A k \in DOMAIN Ev.r : Ev.r[k], "all true")
SetInit == /\ Op({"setinit"}) /\ Next1
           /\ pd' = [pd EXCEPT ![cur].ini = S(Ev.s)]
           /\ Ck(Fine /\ IsSet(Ev.r, S(Ev.s)), S(Ev.s))
           /\ UNCHANGED <<cur, st, ps, ord, en>>
GetInit == /\ Op({"init"}) /\ Next1 /\ SetS(Ev.s, pd[cur].ini)
           /\ Ck(Fine /\ IsSet(Ev.r, pd[cur].ini), pd[cur].ini)

-----------------------------------------------------------------------------
(* States as sets                                                          *)
SNew == Op({"s.new"}) /\ Next1 /\ SetS(Ev.s, {}) /\ Res("ok")
SFrom == Op({"s.from"}) /\ Next1 /\ SetS(Ev.s, Range(Ev.qs)) /\ Res("ok")
SInsert == /\ Op({"s.insert"}) /\ Next1 /\ SetS(Ev.s, S(Ev.s) \cup {Ev.q})
           /\ Res(Ev.q \notin S(Ev.s))
SErase == /\ Op({"s.erase"}) /\ Next1 /\ SetS(Ev.s, S(Ev.s) \ {Ev.q})
          /\ Res(Ev.q \in S(Ev.s))
SContains == Op({"s.contains"}) /\ Next1 /\ Keep /\ Res(Ev.q \in S(Ev.s))
SList == /\ Op({"s.list"}) /\ Next1 /\ Keep
         /\ Ck(Fine /\ IsSet(Ev.r.l, S(Ev.s)) /\ Ev.r.ml = Ev.r.l
               /\ Ev.r.rl = Reverse(Ev.r.l)
               /\ Ev.r.size = Cardinality(S(Ev.s)) /\ Ev.r.empty = (S(Ev.s) = {}), S(Ev.s))
SStr == /\ Op({"s.str"}) /\ Next1 /\ Keep
        /\ Ck(Fine /\ IsSet(Ev.r.set, Strs(S(Ev.s))) /\ IsSet(Ev.r.uset, Strs(S(Ev.s)))
              /\ IsSet(Ev.r.str, S(Ev.s)), S(Ev.s))
SReserve == Op({"s.reserve"}) /\ Next1 /\ Keep /\ Res("ok")
SCopy == Op({"s.copy", "s.assign"}) /\ Next1 /\ SetS(Ev.t, S(Ev.s)) /\ Res("ok")
SMove == /\ Op({"s.move"}) /\ Next1
         /\ st' = Upd(Upd(st, Ev.s, {}), Ev.t, S(Ev.s)) /\ UNCHANGED <<pd, cur, ps, ord, en>>
         /\ Res("ok")
SMerge == /\ Op({"s.merge"}) /\ Next1 /\ SetS(Ev.s, S(Ev.s) \cup S(Ev.t))
          /\ Res(~(S(Ev.t) \subseteq S(Ev.s)))

(* operator< is a strict total order over contents, the same one throughout *)
Close2(o, x, y) ==
  o \cup ({x} \cup {p[1] : p \in {q \in o : q[2] = x}}) \X
         ({y} \cup {p[2] : p \in {q \in o : q[1] = y}})
OrdOk(o, x, y, lt, gt) ==
  IF x = y THEN ~lt /\ ~gt
  ELSE lt # gt /\ (IF lt THEN <<y, x>> \notin o ELSE <<x, y>> \notin o)
OrdNext(o, x, y, lt) ==
  IF x = y THEN o ELSE IF lt THEN Close2(o, x, y) ELSE Close2(o, y, x)
Cmp(kind, x, y) ==
  /\ Ck(Fine /\ Ev.r.eq = (x = y) /\ Ev.r.ne = (x # y) /\ OrdOk(ord[kind], x, y, Ev.r.lt, Ev.r.gt)
        /\ (x = y => ("heq" \notin DOMAIN Ev.r \/ Ev.r.heq)), [equal |-> x = y])
  /\ ord' = [ord EXCEPT ![kind] = OrdNext(@, x, y, Ev.r.lt)]
  /\ UNCHANGED <<pd, cur, st, ps, en>>
SCmp == Op({"s.cmp"}) /\ Next1 /\ Cmp("s", S(Ev.s), S(Ev.t))
PCmp == Op({"p.cmp"}) /\ Next1 /\ Cmp("p", P(Ev.s), P(Ev.t))
QCmp == /\ Op({"prop.cmp"}) /\ Next1 /\ Cmp("q", Ev.q, Ev.q2)
        /\ LET r == Ev.r
               x == Ev.q
               y == Ev.q2
           IN Ck(r.req = (x = y) /\ r.rlt = r.lt /\ r.rgt = r.gt /\ r.rheq /\ r.ceq, [ref |-> x = y])
OCmp == Op({"obj.cmp"}) /\ Next1 /\ Cmp("o", <<Ev.n>>, <<Ev.n2>>)

-----------------------------------------------------------------------------
(* Partial states                                                          *)
PNew == Op({"p.new"}) /\ Next1 /\ SetP(Ev.s, [p |-> {}, n |-> {}]) /\ Res("ok")
PFrom == Op({"p.from"}) /\ Next1 /\ SetP(Ev.s, [p |-> Range(Ev.pos), n |-> Range(Ev.neg)]) /\ Res("ok")
PPut(pos) ==
  LET x == P(Ev.s)
      s == PS(x.p, x.n)
      s2 == Put(s, Ev.q, pos)
  IN SetP(Ev.s, [p |-> s2.p, n |-> s2.n]) /\ Res(Code(s, Ev.q, pos))
PInsert == Op({"p.insert"}) /\ Next1 /\ PPut(TRUE)
PErase == Op({"p.erase"}) /\ Next1 /\ PPut(FALSE)
PContains == /\ Op({"p.contains"}) /\ Next1 /\ Keep
             /\ LET x == P(Ev.s)
                    v == IF Ev.q \in x.p THEN "T" ELSE IF Ev.q \in x.n THEN "F" ELSE "U"
                IN Ck(Fine /\ Ev.r.c = v /\ Ev.r.d = Neg3(v), v)
PList == /\ Op({"p.list"}) /\ Next1 /\ Keep
         /\ LET x == P(Ev.s)
            IN Ck(Fine /\ IsPart(Ev.r, x)
                  /\ Ev.r.size = Cardinality(x.p) + Cardinality(x.n)
                  /\ Ev.r.empty = (x.p = {} /\ x.n = {})
                  /\ Ev.r.cons = (x.p \cap x.n = {}), x)
PStr == /\ Op({"p.str"}) /\ Next1 /\ Keep
        /\ LET x == P(Ev.s)
           IN Ck(Fine /\ IsSet(Ev.r.pos, Strs(x.p)) /\ IsSet(Ev.r.neg, Strs(x.n))
                 /\ IsSet(Ev.r.upos, Strs(x.p)) /\ IsSet(Ev.r.uneg, Strs(x.n)), x)
PCopy == Op({"p.copy"}) /\ Next1 /\ SetP(Ev.t, P(Ev.s)) /\ Res("ok")

-----------------------------------------------------------------------------
(* Text                                                                    *)
PropStr == /\ Op({"prop.str"}) /\ Next1 /\ Keep
           /\ Ck(Fine /\ Ev.r.s = CallStr(Ev.q) /\ Ev.r.p = PddlStr(Ev.q)
                 /\ Ev.r.b = Ev.q /\ Ev.r.eq, CallStr(Ev.q))
PropParse == /\ Op({"prop.parse"}) /\ Next1 /\ Keep
             /\ ErrOr(IF \E i \in 2..Len(Ev.q) : ~IsObj(C, Ev.q[i]) THEN "runtime_error" ELSE "",
                      Ev.r = Ev.q, Ev.q)
ParseAction == /\ Op({"parse.action"}) /\ Next1 /\ Keep
               /\ ErrOr(CallError(C, Ev.call),
                        Ev.r.name = Ev.call[1] /\ Ev.r.args = Tail(Ev.call) /\ Ev.r.str = CallStr(Ev.call),
                        CallStr(Ev.call))
(* a predicate printed with arguments; a state with an object nobody declared *)
PredStr == Op({"predstr"}) /\ Next1 /\ Keep /\ Res(Ev.q)
BadState == Op({"badstate"}) /\ Next1 /\ Keep /\ Fails("runtime_error")
ObjectOp == /\ Op({"object"}) /\ Next1 /\ Keep
            /\ IF IsObj(C, Ev.n)
               THEN Ck(Fine /\ Ev.r.n = Ev.n /\ Ev.r.t = C.objType[Ev.n]
                       /\ Ev.r.ts = AncestorSeq(C.D, C.objType[Ev.n]), AncestorSeq(C.D, C.objType[Ev.n]))
               ELSE Fails("runtime_error")
SubType == Op({"subtype"}) /\ Next1 /\ Keep /\ Res(IsSub(C, Ev.n, Ev.t))

-----------------------------------------------------------------------------
(* Enumerations                                                            *)
TupOk(ts) == Ck(Fine /\ Ev.r.l = ts /\ Ev.r.size = Len(ts) /\ Ev.r.empty = (ts = <<>>), ts)
Params == /\ Op({"params"}) /\ Next1 /\ Keep
          /\ TupOk(IF Ev.kind = "pred"
                   THEN Tuples(C.ofType, C.D.preds[Ev.i].ps)
                   ELSE C.tup[Ev.i])
EnTuples(g) == IF g.i = 0 THEN <<>>
               ELSE IF g.k = "pred" THEN Tuples(Ctxs[g.d].ofType, Ctxs[g.d].D.preds[g.i].ps)
               ELSE Ctxs[g.d].tup[g.i]
(* Enumerators are values: a copy or an assignment gives what the other one *)
(* had, a move takes it away.                                               *)
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
PgSet(e) == en' = e /\ UNCHANGED <<pd, cur, st, ps, ord>> /\ Ck(Fine, "ok")
PgNew == Op({"pg.new"}) /\ Next1 /\ PgSet(Upd(en, Ev.x, [d |-> pd[cur].d, k |-> Ev.kind, i |-> Ev.i]))
PgDefault == Op({"pg.default"}) /\ Next1 /\ PgSet(Upd(en, Ev.x, [d |-> pd[cur].d, k |-> "act", i |-> 0]))
PgCopy == Op({"pg.copy", "pg.assign"}) /\ Next1 /\ PgSet(Upd(en, Ev.y, en[Ev.x]))
PgMove == /\ Op({"pg.move", "pg.massign"}) /\ Next1
          /\ PgSet(Upd(IF Ev.x = Ev.y THEN en ELSE Without(en, Ev.x), Ev.y, en[Ev.x]))
PgDrop == Op({"pg.drop"}) /\ Next1 /\ PgSet(Without(en, Ev.x))
PgList == /\ Op({"pg.list"}) /\ Next1 /\ Keep /\ TupOk(EnTuples(en[Ev.x]))
(* of a register, or of an action or predicate's own *)
PgTuples == EnTuples(IF "x" \in DOMAIN Ev THEN en[Ev.x] ELSE [d |-> pd[cur].d, k |-> Ev.kind, i |-> Ev.i])
PgAt == /\ Op({"pg.at"}) /\ Next1 /\ Keep
        /\ LET ts == PgTuples
               k == IF Ev.k < 0 THEN Ev.k + Len(ts) ELSE Ev.k
           IN IF k < 0 \/ k >= Len(ts) THEN Fails("out_of_range") ELSE Res(ts[k + 1])
PgFind == /\ Op({"pg.find"}) /\ Next1 /\ Keep
          /\ LET ts == PgTuples
                 K == {k \in DOMAIN ts : ts[k] = Ev.args}
             IN IF K = {} THEN Fails("out_of_range") ELSE Res((CHOOSE k \in K : TRUE) - 1)
PgBack == Op({"pg.pddl"}) /\ Next1 /\ Keep /\ Res(TRUE)

(* The state index *)
IxOps == {"ix.size", "ix.new", "ix.all", "ix.prop", "ix.idx", "ix.state", "ix.vec", "ix.deref"}
GPs == [i \in DOMAIN Doms |->   \* worked out once
          IF \E j \in DOMAIN Trace : Trace[j].op \in IxOps THEN TLCEval(GroundProps(Ctxs[i])) ELSE <<>>]
GP == GPs[pd[cur].d]
IxSize == Op({"ix.size", "ix.new"}) /\ Next1 /\ Keep /\ Res(Len(GP))
IxAll == Op({"ix.all"}) /\ Next1 /\ Keep /\ Res(GP)
IxProp == /\ Op({"ix.prop"}) /\ Next1 /\ Keep
          /\ IF Ev.k \in 0..(Len(GP) - 1) THEN Res(GP[Ev.k + 1]) ELSE Fails("out_of_range")
IxIdx == /\ Op({"ix.idx"}) /\ Next1 /\ Keep
         /\ LET K == {k \in DOMAIN GP : GP[k] = Ev.q}
            IN IF K = {} THEN Fails("out_of_range") ELSE Res((CHOOSE k \in K : TRUE) - 1)
IxState == /\ Op({"ix.state"}) /\ Next1 /\ Keep
           /\ LET X == {GP[k + 1] : k \in Range(Ev.on)} IN Ck(Fine /\ IsSet(Ev.r, X), X)
IxVec == /\ Op({"ix.vec"}) /\ Next1 /\ Keep
         /\ IF \E q \in S(Ev.s) : \A k \in DOMAIN GP : GP[k] # q THEN Fails("out_of_range")
            ELSE Ck(Fine /\ Ev.r.n = Len(GP)
                    /\ {GP[Ev.r.on[i] + 1] : i \in DOMAIN Ev.r.on} = S(Ev.s)
                    /\ Len(Ev.r.on) = Cardinality(S(Ev.s)), S(Ev.s))
IxOk == Op({"ix.copy"}) /\ Next1 /\ Keep /\ Res("ok")
IxBack == Op({"ix.pddl"}) /\ Next1 /\ Keep /\ Res(TRUE)
(* cursors: Ev.pos is where the cursor register stands *)
IxDeref == Op({"ix.deref"}) /\ Next1 /\ Keep /\ Res(GP[Ev.pos + 1])
IxCur == Op({"ix.cur"}) /\ Next1 /\ Keep /\ Res("ok")
CurCmp(r, a, b) ==
  r.eq = (a = b) /\ r.ne = (a # b) /\ r.lt = (a < b) /\ r.gt = (a > b)
  /\ r.le = (a <= b) /\ r.ge = (a >= b) /\ r.diff = a - b
IxCurCmp == /\ Op({"ix.ccmp"}) /\ Next1 /\ Keep
            /\ Ck(Fine /\ CurCmp(Ev.r, Ev.pos, Ev.pos2), <<Ev.pos, Ev.pos2>>)

-----------------------------------------------------------------------------
(* Formulas, actions, axioms, derived predicates                           *)
Act(n) == ActIdx(C, n)
Valid == Op({"valid"}) /\ Next1 /\ Keep /\ Res(Pre(C, S(Ev.s), Act(Ev.a), Ev.args))
PValid == /\ Op({"pvalid"}) /\ Next1 /\ Keep
          /\ LET a == C.D.acts[Act(Ev.a)]
             IN Res(Holds3(C, P(Ev.s).p, P(Ev.s).n, a.pre, Env(a.ps, Ev.args)))
Goal == /\ Op({"goal"}) /\ Next1 /\ Keep
        /\ LET g == GoalHolds(C, S(Ev.s)) IN Ck(Fine /\ Ev.r.a = g /\ Ev.r.b = g /\ Ev.r.c = g, g)
PGoal == Op({"pgoal"}) /\ Next1 /\ Keep /\ Res(Holds3(C, P(Ev.s).p, P(Ev.s).n, C.D.goal, NoEnv))

(* new contents r of a complete-state register; on an error nothing is stored *)
StepS(k, r, ch) ==
  /\ ErrOr(r.err, IsSet(Ev.r.s, r.p) /\ (ch => Ev.r.ch = (r.ch > 0)), [s |-> r.p, ch |-> r.ch])
  /\ SetS(k, IF r.err = "" THEN r.p ELSE S(k))
StepP(k, r, ch) ==
  /\ ErrOr(r.err, IsPart(Ev.r.s, r) /\ (ch => Ev.r.ch = r.ch), [p |-> r.p, n |-> r.n, ch |-> r.ch])
  /\ SetP(k, IF r.err = "" THEN [p |-> r.p, n |-> r.n] ELSE P(k))
SR(k) == SS(S(k))
PR(k) == PS(P(k).p, P(k).n)
DoAct == Op({"act"}) /\ Next1 /\ StepS(Ev.s, ApplyAct(C, SR(Ev.s), Act(Ev.a), Ev.args), TRUE)
DoActC == /\ Op({"actc"}) /\ Next1 /\ Keep
          /\ LET r == ApplyAct(C, SR(Ev.s), Act(Ev.a), Ev.args)
             IN ErrOr(r.err, IsSet(Ev.r.s, r.p) /\ Ev.r.same, r.p)
DoPAct == Op({"pact"}) /\ Next1 /\ StepP(Ev.s, ApplyAct(C, PR(Ev.s), Act(Ev.a), Ev.args), TRUE)
DoPActC == /\ Op({"pactc"}) /\ Next1 /\ Keep
           /\ LET r == ApplyAct(C, PR(Ev.s), Act(Ev.a), Ev.args)
              IN ErrOr(r.err, IsPart(Ev.r.s, r) /\ Ev.r.same, r)
DerivedOp == /\ Op({"derived"}) /\ Next1 /\ Keep
             /\ LET X == Derive(C, S(Ev.s)) IN Ck(Fine /\ IsSet(Ev.r, X), X)
DerivedIp == /\ Op({"derivedip"}) /\ Next1
             /\ LET X == Derive(C, S(Ev.s))
                IN Ck(Fine /\ IsSet(Ev.r.s, X) /\ Ev.r.ch = (X # S(Ev.s)), X) /\ SetS(Ev.s, X)
DerivedRule == /\ Op({"derived1"}) /\ Next1 /\ Keep
               /\ LET X == DeriveOne(C, S(Ev.s), Ev.i) IN Ck(Fine /\ IsSet(Ev.r.s, X) /\ Ev.r.ch = (X # S(Ev.s)), X)
Consistent == /\ Op({"consistent"}) /\ Next1 /\ Keep
              /\ LET r == Close(C, SR(Ev.s)) IN ErrOr(r.err, IsSet(Ev.r, r.p), r.p)
PConsistent == /\ Op({"pconsistent"}) /\ Next1 /\ Keep
               /\ LET r == Close(C, PR(Ev.s)) IN ErrOr(r.err, IsPart(Ev.r, r), r)
ValidSt == Op({"validstate"}) /\ Next1 /\ Keep /\ Res(ValidState(C, S(Ev.s)))
PValidSt == Op({"pvalidstate"}) /\ Next1 /\ Keep /\ Res(PValidState(C, P(Ev.s).p, P(Ev.s).n))
AxDo == /\ Op({"ax.apply"}) /\ Next1
        /\ LET r == AxApply(C, SR(Ev.s), Ev.i, 1)
           IN /\ StepS(Ev.s, r, TRUE) /\ Ck(r.err # "" \/ Ev.r.same, "copying application agrees")
AxPDo == /\ Op({"ax.papply"}) /\ Next1
         /\ LET r == AxApply(C, PR(Ev.s), Ev.i, 1)
            IN /\ StepP(Ev.s, r, TRUE) /\ Ck(r.err # "" \/ Ev.r.same, "copying application agrees")
AxCons == Op({"ax.cons"}) /\ Next1 /\ Keep /\ Res(AxConsistent(C, S(Ev.s), Ev.i))
AxPCons == Op({"ax.pcons"}) /\ Next1 /\ Keep /\ Res(PAxOneFrom(C, PR(Ev.s), Ev.i))

-----------------------------------------------------------------------------
(* Calls and plans                                                         *)
NextOp == /\ Op({"next"}) /\ Next1 /\ Keep
          /\ LET r == CallSucc(C, S(Ev.s), Ev.call) IN ErrOr(r.err, IsSet(Ev.r, r.p), r.p)
ValidCall == /\ Op({"validact"}) /\ Next1 /\ Keep
             /\ LET e == CallError(C, Ev.call)
                IN IF e # "" THEN Fails(e) ELSE Res(CallValid(C, S(Ev.s), Ev.call))
ApplyAll == /\ Op({"applyall"}) /\ Next1 /\ Keep
            /\ LET r == RunCalls(C, SR(Ev.s), Ev.calls, 1) IN ErrOr(r.err, IsSet(Ev.r, r.p), r.p)
Plan == /\ Op({"plan"}) /\ Next1 /\ Keep
        /\ LET r == PlanAt(C, pd[cur].ini, Ev.calls, 1) IN IF r.err # "" THEN Fails(r.err) ELSE Res(r.ok)
TupleOp == /\ Op({"tuple"}) /\ Next1 /\ Keep
           /\ LET e == CallError(C, Ev.call)
                  v == CallValid(C, S(Ev.s), Ev.call)
                  r == CallSucc(C, S(Ev.s), Ev.call)
                  b == v /\ r.p = S(Ev.t)
              IN IF e # "" THEN Fails(e) ELSE IF v /\ r.err # "" THEN Fails(r.err)
                 ELSE Ck(Fine /\ Ev.r.a = b /\ Ev.r.b = b, b)
ListActs == /\ Op({"listacts"}) /\ Next1 /\ Keep
            /\ LET v == ValidCalls(C, S(Ev.s)) IN Ck(Fine /\ Ev.r.a = v /\ Ev.r.b = v, v)
ListArgs == /\ Op({"listargs"}) /\ Next1 /\ Keep
            /\ LET v == ValidArgs(C, S(Ev.s), Act(Ev.a))
               IN Ck(Fine /\ Ev.r.a = v /\ Ev.r.b = v /\ Ev.r.c = v, v)

-----------------------------------------------------------------------------
(* Planner expansion: Ev.path is a sequence of calls from the root          *)
RECURSIVE Walk(_, _, _)
Walk(states, path, i) ==
  IF i > Len(path) THEN states
  ELSE Walk(Append(states, CallSucc(C, states[Len(states)], path[i]).p), path, i + 1)
ChildOk(r, x, d) == r.a = x.a /\ IsSet(r.s, x.s) /\ r.d = d /\ r.g = GoalHolds(C, x.s)
(* expanding a node fails if a valid call in it has contradictory effects *)
Broken(X) == LET vc == ValidCalls(C, X) IN \E i \in DOMAIN vc : CallSucc(C, X, vc[i]).err # ""
ChildrenOp ==
  /\ Op({"children"}) /\ Next1 /\ Keep
  /\ LET cl == Close(C, SR(Ev.s))
         root == cl.p
         w == Walk(<<root>>, Ev.path, 1)
         ch == Children(C, w)
         d == Ev.d0 + Len(w) - 1
     IN IF cl.err # "" THEN Fails(cl.err)
        ELSE IF Ev.e # "" /\ \E i \in 1..(Len(w) - 1) : Broken(w[i])
        THEN Fails("runtime_error")
        ELSE IF Broken(w[Len(w)]) THEN Fails("runtime_error")
        ELSE Ck(/\ Fine /\ Ev.r.ok /\ IsSet(Ev.r.root, root) /\ IsSet(Ev.r.node, w[Len(w)])
           /\ Ev.r.depth = d /\ Ev.r.goal = GoalHolds(C, w[Len(w)])
           /\ Len(Ev.r.l) = Len(ch)
           /\ \A i \in DOMAIN ch : ChildOk(Ev.r.l[i], ch[i], d + 1), ch)
(* a cursor over the children moved back and forth; past the last it is the end *)
Zigzag ==
  /\ Op({"zigzag"}) /\ Next1 /\ Keep
  /\ LET cl == Close(C, SR(Ev.s))
         w == Walk(<<cl.p>>, Ev.path, 1)
         ch == Children(C, w)
         n == Len(ch)
         pos[k \in 0..Len(Ev.moves)] ==
           IF k = 0 THEN (IF Ev.start = "end" THEN n ELSE 0)
           ELSE pos[k - 1] + (CASE Ev.moves[k] = "+" -> 1 [] Ev.moves[k] = "-" -> -1 [] OTHER -> 0)
     IN IF cl.err # "" THEN Fails(cl.err)
        ELSE Ck(/\ Fine /\ Ev.r.ok /\ Len(Ev.r.l) = Len(Ev.moves)
                /\ \A k \in DOMAIN Ev.moves :
                     IF pos[k] = n THEN Ev.r.l[k].a = <<"end">>
                     ELSE ChildOk(Ev.r.l[k], ch[pos[k] + 1], Ev.d0 + Len(w)), ch)
RChildren ==
  /\ Op({"rchildren"}) /\ Next1 /\ Keep
  /\ LET cl == Close(C, SR(Ev.s))
         root == cl.p
         ch == Children(C, <<root>>)
     IN IF cl.err # "" THEN Fails(cl.err)
        ELSE IF Broken(root) THEN Fails("runtime_error") ELSE Ck(/\ Fine /\ IsSet(Ev.r.root, root) /\ Len(Ev.r.l) = Len(ch)
           /\ \A i \in DOMAIN ch : ChildOk(Ev.r.l[i], ch[Len(ch) + 1 - i], 1), Reverse(ch))
NodeCmp == Op({"nodecmp"}) /\ Next1
           /\ Ck(Fine /\ Ev.r.eq = (S(Ev.s) = S(Ev.t)) /\ (Ev.r.eq => Ev.r.heq)
                 /\ OrdOk(ord.s, S(Ev.s), S(Ev.t), Ev.r.lt, Ev.r.gt), S(Ev.s) = S(Ev.t))
           /\ ord' = [ord EXCEPT !.s = OrdNext(@, S(Ev.s), S(Ev.t), Ev.r.lt)]
           /\ UNCHANGED <<pd, cur, st, ps, en>>

(* searches with the planner *)
PlanIs(r, x) ==
  /\ r.acts = x.acts
  /\ Len(r.states) = Len(x.states) /\ \A i \in DOMAIN x.states : IsSet(r.states[i], x.states[i])
  /\ r.depths = [i \in DOMAIN x.states |-> i - 1]
CommonLen(p, q) == CHOOSE n \in 0..Len(p) :
  /\ n <= Len(q) /\ SubSeq(p, 1, n) = SubSeq(q, 1, n)
  /\ (n < Len(p) /\ n < Len(q) => p[n + 1] # q[n + 1])
SearchOp ==
  /\ Op({"bfs", "dfs", "astar"}) /\ Next1 /\ Keep
  /\ LET cl == Close(C, SR(Ev.s))
         plans == Plans(C, cl.p, Ev.depth)
         out == Ev.r.plans
         n == Len(out)
         all == /\ ~Ev.r.more /\ n = Len(plans)
                /\ \A i \in DOMAIN plans : \E j \in DOMAIN out : PlanIs(out[j], plans[i])
     IN IF cl.err # "" THEN Fails(cl.err)
        ELSE Ck(/\ Fine
                /\ CASE Ev.op = "bfs" /\ Ev.timed -> n <= Len(plans) /\ \A i \in DOMAIN out : PlanIs(out[i], plans[i])
                     [] Ev.op = "bfs" -> ~Ev.r.more /\ n = Len(plans) /\ \A i \in DOMAIN out : PlanIs(out[i], plans[i])
                     [] Ev.op = "dfs" ->
                          /\ all
                          /\ \A i, k \in DOMAIN out : i < k =>
                               LET m == CommonLen(out[i].acts, out[k].acts)
                               IN \A j \in (i + 1)..(k - 1) : CommonLen(out[i].acts, out[j].acts) >= m
                     [] OTHER ->   \* fewer steps first
                          /\ all
                          /\ \A i \in 1..(n - 1) : Len(out[i].acts) <= Len(out[i + 1].acts), plans)

(* the command-line planner: breadth-first plans from the closed initial state *)
Cli == /\ Op({"cli"}) /\ Next1 /\ Keep
       /\ LET c == Ctxs[Ev.d]
              cl == Close(c, SS(Range(c.D.init)))
              plans == Plans(c, cl.p, Ev.depth)
              out == Ev.r.plans
          IN IF cl.err # "" THEN Fails("failed")
             ELSE Ck(Fine /\ Ev.r.found = Len(plans) /\ Len(out) = Len(plans)
                     /\ \A i \in DOMAIN plans : PlanIs(out[i], plans[i]), plans)
CliBad == Op({"clibad"}) /\ Next1 /\ Keep /\ Ck(Ev.e # "" /\ (Ev.usage => Ev.r.usage), [usage |-> Ev.usage])

-----------------------------------------------------------------------------
(* Normal forms (r0: the one before closing its conjunctions, if they are)  *)
DnfFor(r, f, env, neg) ==
  LET U == AtomsOf(C, f, env) \cup DnfAtoms(C, r)
  IN Ck(\A X \in SUBSET U : (Holds(C, X, f, env) # neg) = DnfHolds(C, X, r), "the same truth value in every state")
ClosedOf(x) == Close(C, PS(Range(x.pos), Range(x.neg)))
Pair(x) == <<Range(x.pos), Range(x.neg)>>
ClosedOk(r, r0) ==
  LET k == [i \in DOMAIN r0.conj |-> ClosedOf(r0.conj[i])]
  IN Ck(/\ r.some = r0.some /\ Len(r.conj) = Len(r0.conj)
        /\ {Pair(r.conj[i]) : i \in DOMAIN r.conj} = {<<k[i].p, k[i].n>> : i \in DOMAIN k}, k)
ClosingFails(r0) == \E i \in DOMAIN r0.conj : ClosedOf(r0.conj[i]).err # ""
(* flag: closed under the axioms *)
NoForm == [some |-> FALSE, conj |-> <<>>]
DnfOk(f, env) ==
  IF Ev.flag
  THEN IF Ev.e0 # "" THEN Ck(Ev.e = Ev.e0, [error |-> Ev.e0])
       ELSE IF ClosingFails(Ev.r0) THEN Fails("runtime_error") ELSE Ck(Fine, "no error") /\ ClosedOk(Ev.r, Ev.r0)
  ELSE Ck(Fine, "no error") /\ DnfFor(Ev.r, f, env, FALSE) /\ Ck(DnfClean(Ev.r), "no contradictory or redundant conjunction")
Printed(r) == Ck(r.printed = r.conj, "printed as it is")
(* contradictions of the axioms left out *)
DnfAx == /\ Op({"dnf.ax"}) /\ Next1 /\ Keep
         /\ Ck(Fine, "no error")
         /\ LET a == Ev.r.plain
                b == Ev.r.ax
                A == {Pair(a.conj[i]) : i \in DOMAIN a.conj}
                B == {Pair(b.conj[i]) : i \in DOMAIN b.conj}
                Bad == {x \in A : ~PValidState(C, x[1], x[2])}
                top == CASE Ev.kind = "goal" -> C.D.goal.k
                         [] Ev.kind = "pre" -> C.D.acts[Act(Ev.call[1])].pre.k
                         [] OTHER -> "and"
            IN Ck(IF ~a.some \/ A = {} THEN b.some = a.some /\ B = {}
                  ELSE /\ B \subseteq A /\ A \ B \subseteq Bad /\ b.some = (B # {})
                       /\ (top \in {"and", "or", "forall", "exists"} => B = A \ Bad), [contradictions |-> Bad])
CallAct == C.D.acts[Act(Ev.call[1])]
CallEnv == Env(CallAct.ps, Tail(Ev.call))
DnfOps == /\ Op({"dnf.pre", "dnf.post", "dnf.goal"}) /\ Next1 /\ Keep
          /\ (Ev.e = "" => Printed(Ev.r))
          /\ IF Ev.op # "dnf.goal" /\ CallError(C, Ev.call) # "" THEN Fails(CallError(C, Ev.call))
             ELSE CASE Ev.op = "dnf.pre" -> DnfOk(CallAct.pre, CallEnv)
                    [] Ev.op = "dnf.post" -> DnfOk(EffForm(CallAct.eff), CallEnv)
                    [] OTHER -> DnfOk(C.D.goal, NoEnv)
DnfNeg == /\ Op({"dnf.neg"}) /\ Next1 /\ Keep
          /\ Ck(Fine, "no error")
          /\ IF Ev.r.skip THEN DnfFor(NoForm, CallAct.pre, CallEnv, FALSE)
             ELSE DnfFor(Ev.r, CallAct.pre, CallEnv, TRUE) /\ Ck(DnfClean(Ev.r), "no contradictory or redundant conjunction")
(* both forms at once: the same as one after the other *)
DnfCond == /\ Op({"dnf.cond"}) /\ Next1 /\ Keep
           /\ IF Ev.e # "" THEN Ck(Ev.e1 = Ev.e \/ Ev.e2 = Ev.e, "no error")
              ELSE IF ~Ev.r.some THEN Ck((Ev.e1 = "" /\ ~Ev.first.some) \/ (Ev.e2 = "" /\ ~Ev.second.some), "a pair of forms")
              ELSE Ck(Ev.e1 = "" /\ Ev.e2 = "" /\ Ev.first.some /\ Ev.first.conj = Ev.r.pre
                      /\ Ev.second.some /\ Ev.second.conj = Ev.r.post, <<Ev.first, Ev.second>>)

-----------------------------------------------------------------------------
(* Printed formulas, read back *)
FStr == /\ Op({"fstr"}) /\ Next1 /\ Keep
        /\ LET f == IF Ev.a = "" THEN C.D.goal ELSE C.D.acts[Act(Ev.a)].pre IN Ck(Fine /\ Ev.r = f, f)

-----------------------------------------------------------------------------
Next ==
  \/ Load \/ LoadBad \/ Use \/ Reset \/ Listing \/ Summ \/ AddObj \/ AddNone \/ DelObj \/ BackPtr \/ SetInit \/ GetInit
  \/ SNew \/ SFrom \/ SInsert \/ SErase \/ SContains \/ SList \/ SStr \/ SReserve \/ SCopy
  \/ SMove \/ SMerge \/ SCmp \/ PCmp \/ QCmp \/ OCmp
  \/ PNew \/ PFrom \/ PInsert \/ PErase \/ PContains \/ PList \/ PStr \/ PCopy
  \/ PropStr \/ PropParse \/ ParseAction \/ PredStr \/ BadState \/ ObjectOp \/ SubType
  \/ Params \/ PgNew \/ PgDefault \/ PgCopy \/ PgMove \/ PgDrop \/ PgList \/ PgAt \/ PgFind \/ PgBack
  \/ IxSize \/ IxAll \/ IxProp \/ IxIdx \/ IxState \/ IxVec \/ IxOk \/ IxBack \/ IxDeref \/ IxCur \/ IxCurCmp
  \/ Valid \/ PValid \/ Goal \/ PGoal \/ DoAct \/ DoActC \/ DoPAct \/ DoPActC
  \/ DerivedOp \/ DerivedIp \/ DerivedRule \/ Consistent \/ PConsistent \/ ValidSt \/ PValidSt
  \/ AxDo \/ AxPDo \/ AxCons \/ AxPCons
  \/ NextOp \/ ValidCall \/ ApplyAll \/ Plan \/ TupleOp \/ ListActs \/ ListArgs
  \/ ChildrenOp \/ Zigzag \/ RChildren \/ NodeCmp
  \/ SearchOp \/ Cli \/ CliBad \/ DnfOps \/ DnfAx \/ DnfNeg \/ DnfCond \/ FStr
Spec == Init /\ [][Next]_vars

(* every event consumed *)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
