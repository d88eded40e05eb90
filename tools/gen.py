"""Random PDDL domains (as data and as text) for the conformance checks.

The data form is what spec/Pddl.tla reads; `domain_text`/`problem_text` write
the same domain as PDDL in one of many equivalent spellings.
"""
import copy
import itertools

OBJ_NAMES = ["a", "b", "c", "ab", "a-b", "a_b", "o1", "o2", "o11", "x", "y", "box", "arm-1", "b-a", "ba", "aa"]
ALIKE = ["a", "b", "a-b", "b-a", "ab", "ba", "aa"]   # joined in different ways they read the same
PRED_NAMES = ["p", "q", "r", "on", "at", "p2", "in-hand", "on-top", "free_now", "pa", "not-p", "orp", "a"]
ACT_NAMES = ["go", "pick", "put-down", "move", "go2", "on", "when-free"]
TYPE_NAMES = ["t", "u", "block", "t2", "movable", "room"]
VAR_NAMES = ["?x", "?y", "?z", "?a", "?b", "?x1", "?to", "?v"]

# What a domain may contain; checks switch features on and off.
DEFAULTS = dict(types=4, max_objs=5, consts=True, preds=5, acts=3, act_params=3,
                depth=3, quant=True, neg=True, eq=True, typepred=True, cond=True,
                fa=True, axioms=0, derived=0, shadow=True, empty_types=True,
                effect_depth=2, nullary=True, max_tuples=40, contradict=True,
                max_inst=40, min_objs=0, fmax=3, wide=1, many=0.12, alike=0.3)


class Gen:
    def __init__(self, rng, **feat):
        self.r = rng
        self.f = dict(DEFAULTS)
        self.f.update(feat)

    # ------------------------------------------------------------ vocabulary
    def domain(self):
        while True:
            D = self._domain()
            if D is not None:
                return D

    def _domain(self):
        r, f = self.r, self.f
        self.D = D = dict(name=r.choice(["d", "test-domain", "world2"]), types=[], consts=[],
                          objs=[], preds=[], acts=[], axs=[], drvs=[], init=[], goal=None)
        tn = r.sample(TYPE_NAMES, r.randint(0, f["types"]))
        for i, n in enumerate(tn):
            D["types"].append(dict(n=n, p=r.choice(["object"] + tn[:i]) if i else "object"))
        alltypes = ["object"] + tn
        self.par = {t["n"]: t["p"] for t in D["types"]}
        k = r.randint(max(2, f["min_objs"]), f["max_objs"])
        names = r.sample(ALIKE if k <= len(ALIKE) and r.random() < f["alike"] else OBJ_NAMES, k)
        x = r.random()
        if x < 0.07:
            # long names that differ at their end, or at their beginning
            names = ["the-very-same-long-beginning-" + n if x < 0.05 else n + "-and-the-same-long-end" for n in names]
        usable = alltypes
        if f["empty_types"] and len(tn) > 1 and r.random() < 0.3:
            e = r.choice(tn)
            usable = [t for t in alltypes if t != e and e not in self.ancestors(t)]
        elif not f["empty_types"]:
            usable = alltypes
        os = [dict(n=n, t=r.choice(usable)) for n in names]
        if not f["empty_types"]:
            leaves = [t for t in tn]
            for i, t in enumerate(leaves[:len(os)]):
                os[i]["t"] = t
        nc = r.randint(0, len(os) - 1) if f["consts"] and r.random() < 0.7 else 0
        if f.get("min_objs"):
            nc = min(nc, 2)
        if f["consts"] and not f.get("min_objs") and r.random() < 0.05:
            nc = len(os)   # the problem has no objects of its own
        D["consts"], D["objs"] = os[:nc], os[nc:]
        self.recompute()
        if not f["empty_types"] and any(not self.oft[t] for t in alltypes):
            return None

        pn = [n for n in PRED_NAMES]
        r.shuffle(pn)
        npred = r.randint(2, f["preds"])
        long = "is-one-of-those-that-" if r.random() < 0.03 else ""
        for n in [long + n for n in pn[:npred]]:
            ar = r.choice([0, 1, 1, 1, 2, 2, 2, 3]) if f["nullary"] else r.choice([1, 1, 2, 2, 3])
            D["preds"].append(dict(n=n, ps=self.params(ar)))
        if r.random() < f["many"]:
            # now and then a relation between four or five objects
            ps = self.broad(40)
            if ps:
                r.choice(D["preds"])["ps"] = ps
        if not f["nullary"] and not any(p["ps"] for p in D["preds"]):
            return None
        if f.get("max_ground") and not 4 <= len(self.ground()) <= f["max_ground"]:
            return None
        self.derived = []
        if f["derived"]:
            nd = r.randint(1, f["derived"])
            self.derived = [p["n"] for p in D["preds"][-nd:]]
            if len(self.derived) >= len(D["preds"]):
                return None
        self.base = [p for p in D["preds"] if p["n"] not in self.derived]
        if f["derived"]:
            self._derived_rules()
        if f["axioms"]:
            self._axioms()
        an = r.sample(ACT_NAMES, r.randint(1, f["acts"]))
        for n in an:
            for _ in range(50):
                ps = self.params(r.choice(range(0 if f["nullary"] else 1, f["act_params"] + 1)))
                if len(self.tuples(ps)) <= f["max_tuples"]:
                    break
            else:
                ps = []
            if n == an[0] and r.random() < f["many"]:
                ps = self.broad(f["max_tuples"]) or ps
            env = [(p["n"], p["t"]) for p in ps]
            D["acts"].append(dict(n=n, ps=ps, pre=self.precond(env), eff=self.effect(env, f["effect_depth"])))
        D["init"] = self.some_props(0.4)
        D["goal"] = self.formula([], f["depth"], goal=True)
        if f.get("plan_goal"):
            # something to be reached: a few literals, not all true to begin with
            g = [q for q in self.ground() if q[0] not in self.derived or r.random() < 0.5]
            lits = [dict(k="atom", p=q[0], a=q[1:]) for q in r.sample(g, min(len(g), r.choice([1, 1, 2])))]
            D["goal"] = dict(k="and", fs=[x if [x["p"]] + x["a"] not in D["init"] else dict(k="not", f=x) for x in lits])
        return D

    def rewritten(self):
        """The same vocabulary and initial state, with other actions, axioms and goal."""
        f = self.f
        g = Gen(self.r, **f).load(copy.deepcopy(self.D))
        D = g.D
        if D["axs"]:
            D["axs"] = []
            g._axioms()
        for a in D["acts"]:
            env = [(p["n"], p["t"]) for p in a["ps"]]
            a["pre"] = g.precond(env)
            if self.r.random() < 0.5:
                a["eff"] = g.effect(env, f["effect_depth"])
        D["goal"] = g.formula([], f["depth"], goal=True)
        return g

    def ancestors(self, t):
        out = []
        while t != "object" and t:
            out.append(t)
            t = self.par.get(t, "object")
        return out + ["object"]

    def recompute(self):
        D = self.D
        self.objs = D["consts"] + D["objs"]
        self.oft = {t: [o["n"] for o in self.objs if t in self.ancestors(o["t"])]
                    for t in ["object"] + [x["n"] for x in D["types"]]}

    def load(self, D):
        """Use an existing domain's vocabulary."""
        self.D = D
        self.par = {t["n"]: t["p"] for t in D["types"]}
        self.derived = sorted({d["p"] for d in D["drvs"]})
        self.base = [p for p in D["preds"] if p["n"] not in self.derived]
        self.recompute()
        return self

    def tuples(self, ps):
        return list(itertools.product(*[self.oft[p["t"]] for p in ps]))

    def params(self, n, avoid=(), first=()):
        r = self.r
        names = [v for v in VAR_NAMES if v not in avoid and v not in first]
        r.shuffle(names)
        names = list(first) + names
        return [dict(n=names[i], t=r.choice(list(self.oft))) for i in range(n)]

    def broad(self, cap):
        """Four or five parameters, if the objects are few enough."""
        for _ in range(20):
            ps = self.params(self.r.choice([4, 4, 5]))
            if 1 <= len(self.tuples(ps)) <= cap:
                return ps
        return None

    def ground(self):
        return [[p["n"]] + list(t) for p in self.D["preds"] for t in self.tuples(p["ps"])]

    def some_props(self, density, extra=0.0):
        r = self.r
        g = self.ground()
        d = r.choice([density, density / 2, min(1, density * 1.6)])
        n = min(len(g), 14)
        out = [q for q in g if r.random() < d * min(1.0, n / max(1, len(g)) * 1.5)]
        if extra and r.random() < extra:
            out.append(self.odd_prop())
        return out

    def odd_prop(self):
        """An arbitrary, possibly ill-typed or undeclared proposition."""
        r = self.r
        n = r.choice([p["n"] for p in self.D["preds"]] + ["zz"])
        return [n] + [r.choice(self.objs)["n"] for _ in range(r.randint(0, 3))]

    # -------------------------------------------------------------- formulas
    def terms(self, t, env, allow_obj):
        vs = [v for v, vt in env if t in self.ancestors(vt)]
        wider = [v for v, vt in env if vt in self.ancestors(t)]
        cs = [o["n"] for o in (self.objs if allow_obj else self.D["consts"])
              if t in self.ancestors(o["t"])]
        return vs, wider, cs

    def term(self, t, env, allow_obj):
        r = self.r
        vs, wider, cs = self.terms(t, env, allow_obj)
        pools = [x for x, w in ((vs[-1:], 2), (vs, 4), (wider, self.f["wide"]), (cs, 2)) if x for _ in range(w)]
        return r.choice(r.choice(pools)) if pools else None

    def atom(self, env, preds, allow_obj, tries=8):
        r = self.r
        for _ in range(tries):
            x = r.random()
            if self.f["eq"] and x < 0.1:
                a = [self.term("object", env, allow_obj) for _ in range(2)]
                if None not in a:
                    return dict(k="atom", p="=", a=a)
            elif self.f["typepred"] and x < 0.18:
                ts = [t for t in self.oft if self.oft[t]]
                t = self.term("object", env, allow_obj)
                if ts and t:
                    return dict(k="atom", p=r.choice(ts), a=[t])
            elif preds:
                p = r.choice(preds)
                a = [self.term(q["t"], env, allow_obj) for q in p["ps"]]
                if None not in a:
                    return dict(k="atom", p=p["n"], a=a)
        nul = [p for p in preds if not p["ps"]]
        if nul:
            return dict(k="atom", p=r.choice(nul)["n"], a=[])
        return None

    def binder(self, env):
        """One or two quantified variables; sometimes reusing a name in scope."""
        r = self.r
        names = [v for v, _ in env]
        n = r.choice([1, 1, 1, 1, 1, 1, 1, 2, 2, 3])
        if names and self.f["shadow"] and r.random() < 0.3:
            ps = self.params(n, first=[r.choice(names)])
        else:
            ps = self.params(min(n, len(VAR_NAMES) - len(names)), names)
        return ps[:1] if len(ps) == 3 and len(self.tuples(ps)) > 12 else ps

    def precond(self, env):
        x = self.r.random()
        if x < (0.3 if self.f.get("plan_goal") else 0.08):
            return dict(k="and", fs=[])
        return self.formula(env, self.r.randint(0, self.f["depth"]))

    def formula(self, env, depth, preds=None, goal=False, neg_ok=True):
        """preds: usable predicates (default all); neg_ok False: only positively."""
        r, f = self.r, self.f
        preds = self.D["preds"] if preds is None else preds
        if depth <= 0 or r.random() < 0.15:
            a = self.atom(env, preds, goal)
            if a is not None:
                return a
            return dict(k="and", fs=[])
        kinds = ["and", "and", "or", "or"]
        if neg_ok and f["neg"]:
            kinds += ["not", "not"]
        if f["quant"]:
            kinds += ["forall", "exists"]
        k = r.choice(kinds)
        if k in ("and", "or"):
            n = r.choice([0, 1, 2, 2, 2, 3, 3]) if r.random() < 0.3 else r.choice([2, 2, f["fmax"]])
            return dict(k=k, fs=[self.formula(env, depth - 1, preds, goal, neg_ok) for _ in range(n)])
        if k == "not":
            return dict(k="not", f=self.formula(env, depth - 1, preds, goal, neg_ok))
        ps = self.binder(env)
        if not ps:
            return self.formula(env, 0, preds, goal, neg_ok)
        env2 = [(v, t) for v, t in env if v not in [p["n"] for p in ps]] + [(p["n"], p["t"]) for p in ps]
        return dict(k=k, ps=ps, f=self.formula(env2, depth - 1, preds, goal, neg_ok))

    # --------------------------------------------------------------- effects
    def lit_atom(self, env, preds):
        r = self.r
        if self.f["contradict"] and r.random() < 0.03:
            return self.atom(env, [], False)
        for _ in range(10):
            if not preds:
                return None
            p = r.choice(preds)
            a = [self.term(q["t"], env, False) for q in p["ps"]]
            if None not in a:
                return dict(k="atom", p=p["n"], a=a)
        return None

    def settled(self, env):
        """A condition that is always true, or always false."""
        r = self.r
        k = r.random()
        if k < 0.4 or not self.f["eq"] or not (env or self.D["consts"]):
            f = dict(k=r.choice(["and", "and", "or"]), fs=[])
        else:
            v = r.choice([x for x, _ in env] or [c["n"] for c in self.D["consts"]])
            f = dict(k="atom", p="=", a=[v, v])
        return dict(k="not", f=f) if self.f["neg"] and r.random() < 0.2 else f

    def effect(self, env, depth, pos=None, neg=None, small=False):
        """pos/neg: predicates that may be added / deleted (default: base)."""
        r, f = self.r, self.f
        pos = self.base if pos is None else pos
        neg = self.base if neg is None else neg
        e = dict(fa=[], add=[], **{"del": []}, cd=[])
        for _ in range(r.choice([0, 1, 1, 2, 3]) if not small else r.choice([0, 1, 1])):
            a = self.lit_atom(env, pos)
            if a:
                e["add"].append(a)
        for _ in range(r.choice([0, 1, 1, 2]) if not small else r.choice([0, 0, 1])):
            a = self.lit_atom(env, neg)
            if a:
                e["del"].append(a)
        if depth > 0 and f["fa"]:
            for _ in range(r.choice([0, 0, 1, 1, 2]) if not small else r.choice([0, 0, 0, 1])):
                ps = self.binder(env)
                if not ps:
                    continue
                if len(self.tuples(ps)) > 16:
                    ps = ps[:1]
                env2 = [(v, t) for v, t in env if v not in [p["n"] for p in ps]] + [(p["n"], p["t"]) for p in ps]
                e["fa"].append(dict(ps=ps, e=self.effect(env2, depth - 1, pos, neg)))
        if depth > 0 and f["cond"]:
            for _ in range(r.choice([0, 0, 1, 2]) if not small else r.choice([0, 0, 0, 1])):
                e["cd"].append(dict(c=self.formula(env, r.randint(0, 2)),
                                    e=self.effect(env, depth - 1, pos, neg)))
            if not small and r.random() < 0.12:
                # a run of conditions, some of which are settled
                for _ in range(r.choice([2, 3])):
                    e["cd"].insert(r.randint(0, len(e["cd"])),
                                   dict(c=self.settled(env) if r.random() < 0.6 else self.formula(env, 0),
                                        e=self.effect(env, 0, pos, neg, True)))
        if not small and not any(e.values()) and r.random() < 0.7:
            a = self.lit_atom(env, pos or neg)
            if a:
                e["add" if pos else "del"].append(a)
        return e

    # ------------------------------------------------------ choosing states
    # (what a formula evaluates to here only guides which states are tried)
    def holds(self, f, env, S):
        k = f["k"]
        if k == "atom":
            q = (f["p"],) + tuple(env.get(a, a) for a in f["a"])
            if q[0] == "=":
                return q[1] == q[2]
            if self.oft.get(q[0]):
                return q[1] in self.oft[q[0]]
            return q in S
        if k == "and":
            return all(self.holds(x, env, S) for x in f["fs"])
        if k == "or":
            return any(self.holds(x, env, S) for x in f["fs"])
        if k == "not":
            return not self.holds(f["f"], env, S)
        ts = (self.holds(f["f"], dict(env, **{p["n"]: o for p, o in zip(f["ps"], t)}), S) for t in self.tuples(f["ps"]))
        return all(ts) if k == "forall" else any(ts)

    def tip(self, f, env, tries=60, S=None):
        """A state and a proposition that decides f there, or None."""
        r = self.r
        S = {tuple(q) for q in self.some_props(0.4)} if S is None else set(S)
        A = sorted(self.atoms(f, env, 60) or ())
        if not A:
            return None
        v = self.holds(f, env, S)
        for _ in range(tries):
            a = r.choice(A)
            T = S ^ {a}
            if self.holds(f, env, T) != v:
                return S, a
            if r.random() < 0.8:
                S = T
        return None

    # ---------------------------------------------------- normal form sizes
    def atoms(self, f, env, cap=10):
        """The ground propositions the formula depends on (None: more than cap)."""
        out = set()

        def walk(f, env):
            if len(out) > cap:
                return
            k = f["k"]
            if k == "atom":
                if f["p"] != "=" and not self.oft.get(f["p"]):
                    out.add((f["p"],) + tuple(env.get(a, a) for a in f["a"]))
            elif k in ("and", "or"):
                for x in f["fs"]:
                    walk(x, env)
            elif k == "not":
                walk(f["f"], env)
            else:
                for t in self.tuples(f["ps"]):
                    walk(f["f"], dict(env, **{p["n"]: o for p, o in zip(f["ps"], t)}))
        walk(f, env)
        return None if len(out) > cap else out

    def eff_form(self, e):
        return dict(k="and", fs=[dict(k="forall", ps=x["ps"], f=self.eff_form(x["e"])) for x in e["fa"]] + e["add"] +
                    [dict(k="not", f=a) for a in e["del"]] +
                    [dict(k="or", fs=[dict(k="not", f=x["c"]), self.eff_form(x["e"])]) for x in e["cd"]])

    def dnf(self, f):
        """A bound on (conjunctions, literals in each) of the disjunctive normal
        form, and the largest intermediate number of conjunctions."""
        k = f["k"]
        if k == "atom":
            return 1, 1, 1
        if k == "not":
            return _dneg(self.dnf(f["f"]))
        if k in ("and", "or"):
            xs = [self.dnf(x) for x in f["fs"]]
        else:
            xs = [self.dnf(f["f"])] * min(60, len(self.tuples(f["ps"])))
        return _dand(xs) if k in ("and", "forall") else _dor(xs)

    def dnf_effect(self, e):
        xs = [(1, max(1, len(e["add"]) + len(e["del"])), 1)]
        for x in e["fa"]:
            xs += [self.dnf_effect(x["e"])] * min(60, len(self.tuples(x["ps"])))
        for x in e["cd"]:
            xs.append(_dor([_dneg(self.dnf(x["c"])), self.dnf_effect(x["e"])]))
        return _dand(xs)

    def clashing(self):
        """A formula some of whose parts contradict an axiom."""
        r, parts = self.r, []
        for _ in range(r.randint(1, 3)):
            lits = []
            for _ in range(r.choice([1, 1, 2])):
                ax = r.choice(self.D["axs"])
                ts = self.tuples(ax["ps"])
                if not ts:
                    continue
                env = {p["n"]: o for p, o in zip(ax["ps"], r.choice(ts))}
                put = lambda a, pos: lits.append(
                    (lambda x: x if pos else dict(k="not", f=x))(dict(k="atom", p=a["p"], a=[env.get(x, x) for x in a["a"]])))
                put(ax["ctx"], ax["ctx"]["pos"])
                for key in ("add", "del"):
                    for a in ax["imp"][key]:
                        if r.random() < 0.6:
                            put(a, (key == "add") == (r.random() < 0.4))
            if lits:
                r.shuffle(lits)
                parts.append(dict(k="and", fs=lits))
        if not parts:
            return self.D["goal"]
        return parts[0] if len(parts) == 1 else dict(k="or", fs=parts)

    # --------------------------------------------------- axioms and derived
    def _axioms(self):
        """Each predicate is implied with one polarity only: closing terminates."""
        r, f = self.r, self.f
        pol = {p["n"]: r.random() < 0.65 for p in self.base}
        pos = [p for p in self.base if pol[p["n"]]]
        neg = [p for p in self.base if not pol[p["n"]]]
        for _ in range(r.randint(1, f["axioms"])):
            for _try in range(30):
                ps = self.params(r.choice([0, 1, 1, 2, 2, 3]))
                if len(self.tuples(ps)) > 25:
                    continue
                env = [(p["n"], p["t"]) for p in ps]
                x = r.random()
                if f["typepred"] and x < 0.04:
                    a = self.atom(env, [], False)
                else:
                    a = self.lit_atom_plain(env)
                if a is None:
                    continue
                imp = self.effect(env, r.choice([0, 0, 1]), pos, neg, small=True)
                if f.get("ax_cond") and r.random() < 0.5:
                    # chains: a conditional consequence waiting for another axiom
                    b = self.lit_atom(env, pos or neg)
                    up = bool(pos) and (not neg or r.random() < 0.6)
                    c = self.lit_atom(env, pos if up else neg)
                    if b and c:
                        imp["cd"].append(dict(c=c if up else dict(k="not", f=c),
                                              e=dict(fa=[], cd=[], add=[b] if pos else [], **{"del": [] if pos else [b]})))
                if not any(imp.values()) or self.dnf_effect(imp)[2] > 300:
                    continue
                self.D["axs"].append(dict(ps=ps, ctx=dict(pos=r.random() < 0.7, p=a["p"], a=a["a"]), imp=imp))
                break

    def lit_atom_plain(self, env):
        for _ in range(10):
            p = self.r.choice(self.base)
            a = [self.term(q["t"], env, False) for q in p["ps"]]
            if None not in a:
                return dict(k="atom", p=p["n"], a=a)
        return None

    def _derived_rules(self):
        r, D = self.r, self.D
        byname = {p["n"]: p for p in D["preds"]}
        mutual = r.random() < 0.25
        order = list(self.derived)
        r.shuffle(order)
        rules = []
        for i, n in enumerate(order):
            for _ in range(r.choice([1, 1, 1, 2])):
                p = byname[n]
                names = list(VAR_NAMES)
                r.shuffle(names)
                ps = []
                for j, q in enumerate(p["ps"]):
                    subs = [t for t in self.oft if q["t"] in self.ancestors(t)]
                    ps.append(dict(n=names[j], t=r.choice(subs) if r.random() < 0.3 else q["t"]))
                env = [(q["n"], q["t"]) for q in ps]
                if mutual:
                    body = self._posformula(env, r.randint(0, 2), self.base,
                                            self.base + [byname[m] for m in order])
                else:
                    low = self.base + [byname[m] for m in order[:i]]
                    rec = [p] if r.random() < 0.4 else []
                    body = self._posformula(env, r.randint(0, 2), low, low + rec)
                rules.append(dict(p=n, ps=ps, body=body))
        r.shuffle(rules)
        D["drvs"] = rules

    def chained(self):
        """Adds derived predicates that rest on one another in a long chain.

        Returns a function that gives states where the whole chain matters."""
        r, D = self.r, self.D
        free = [n for n in PRED_NAMES if n not in [p["n"] for p in D["preds"]]]
        r.shuffle(free)
        t = r.choice([t for t in self.oft if len(self.oft[t]) == max(map(len, self.oft.values()))])
        v, w, z = r.sample(VAR_NAMES, 3)
        x = dict(n=v, t=t)
        at = lambda p, *a: dict(k="atom", p=p, a=list(a))
        neg = lambda f: dict(k="not", f=f)
        any_of = lambda k, fs: dict(k=k, fs=r.sample(fs, len(fs)))

        def wrap(f, p=0.4, deep=2):
            """The same, in other words (atoms keep their polarity)."""
            if deep == 0 or r.random() > p:
                return f
            k = r.choice(["twice", "one", "none", "any", "all"])
            if k == "twice":
                f = neg(neg(wrap(f, p, deep - 1)))
            elif k == "one":
                f = dict(k=r.choice(["and", "or"]), fs=[wrap(f, p, deep - 1)])
            elif k == "none":
                f = neg(dict(k=r.choice(["and", "or"]), fs=[wrap(neg(f), p, deep - 1)]))
            else:
                f = dict(k="exists" if k == "any" else "forall", ps=[dict(n=z, t=t)], f=wrap(f, p, deep - 1))
                if r.random() < 0.4:
                    f = neg(dict(k="forall" if k == "any" else "exists", ps=f["ps"], f=neg(f["f"])))
            return f
        if r.random() < 0.5:
            # along a relation between objects, possibly against their order
            link, end, n = free[0], free[1], r.choice([1, 1, 2])
            ok = free[2:2 + n]
            D["preds"] += [dict(n=link, ps=[x, dict(n=w, t=t)]), dict(n=end, ps=[x])] + [dict(n=o, ps=[x]) for o in ok]
            rules = []
            for i, o in enumerate(ok):
                step = any_of("and", [at(link, v, w), wrap(at(ok[(i + 1) % n], w), 0.2)])
                if r.random() < 0.75:
                    step = dict(k="exists", ps=[dict(n=w, t=t)], f=step)
                else:
                    step = neg(dict(k="forall", ps=[dict(n=w, t=t)], f=neg(step)))
                step = wrap(step, 0.3)
                start = at(end, v)
                one = r.random() < 0.5
                rules += [dict(p=o, ps=[x], body=b) for b in ([any_of("or", [start, step])] if one else [start, step])]

            def state():
                os = list(self.oft[t])
                k = r.random()
                os = os[::-1] if k < 0.3 else r.sample(os, len(os)) if k < 0.6 else os
                qs = [[link, a, b] for a, b in zip(os, os[1:])] + [[end, os[-1]]] if os else []
                if r.random() < 0.3:
                    qs.remove(r.choice(qs)) if qs else None
                return qs + [q for q in self.some_props(0.3) if q[0] not in (link, end)]
        else:
            # each negates the one below it
            n = r.choice([3, 3, 4, 4])
            ps = [x] if r.random() < 0.6 else []
            a = [v] if ps else []
            ds, base = free[:n], free[n]
            D["preds"] += [dict(n=p, ps=ps) for p in ds + [base]]
            rules = []
            for i, d in enumerate(ds):
                low = ds[i + 1] if i + 1 < n else base
                body = neg(at(low, *a))
                k = r.random()
                if k < 0.75 or i + 2 >= n:
                    body = wrap(body, 0.6)
                    if ps and r.random() < 0.3:
                        body = r.choice([neg(dict(k="exists", ps=[dict(n=z, t=t)], f=at(low, z))),
                                         neg(dict(k="forall", ps=[dict(n=z, t=t)], f=at(low, z))),
                                         dict(k="forall", ps=[dict(n=z, t=t)], f=neg(at(low, z))),
                                         dict(k="exists", ps=[dict(n=z, t=t)], f=neg(at(low, z)))])
                if k < 0.15:
                    body = at(low, *a)
                elif k < 0.3:
                    body = any_of(r.choice(["and", "or"]), [body, neg(at(base, *a))])
                elif k < 0.4:
                    body = neg(any_of(r.choice(["and", "or"]), [at(low, *a), at(base, *a)]))
                elif k < 0.75 and i + 2 < n:
                    # on several levels at once
                    more = [at(o, *a) for o in r.sample(ds[i + 2:], r.randint(1, n - i - 2))]
                    body = any_of(r.choice(["and", "or"]), [body] + [wrap(neg(q) if r.random() < 0.4 else q, 0.3) for q in more])
                rules.append(dict(p=d, ps=ps, body=body))
            r.random() < 0.5 and r.shuffle(rules)

            def state():
                return self.some_props(0.5)
        D["drvs"] = D["drvs"] + rules
        if r.random() < 0.3:
            r.shuffle(D["drvs"])
        self.load(D)
        return state

    def cascading(self):
        """Adds axioms that set one another off in a long chain, and an action that starts it.

        Returns a function that gives propositions that leave most of the chain to do."""
        r, D = self.r, self.D
        if r.random() < 0.35:
            return self._relayed()
        fan = r.random() < 0.2                          # all set off by the first
        n = r.choice([4, 5, 6, 7])
        new = ["link%s" % c for c in r.sample("abcdefghijk", n)]
        wait = "linkx" if r.random() < 0.5 and not fan else None   # the chain only advances when the axioms are applied
        ts = [t for t in self.oft if 1 <= len(self.oft[t]) <= 5]
        ps = [dict(n=v, t=r.choice(ts)) for v in r.sample(VAR_NAMES, r.choice([0, 1, 1, 2]) if ts else 0)]
        if len(ps) == 2 and r.random() < 0.5:
            ps[1]["t"] = ps[0]["t"]
        vs = [p["n"] for p in ps]
        swap = len(ps) == 2 and ps[0]["t"] == ps[1]["t"] and r.random() < 0.5
        D["preds"] += [dict(n=p, ps=[dict(q) for q in ps]) for p in new + [wait] * bool(wait)]
        up = [r.random() < 0.6 for _ in new]
        axs = []
        for i, p in enumerate(new):
            j = (i + 1) % n
            if j == 0 and (fan or r.random() < 0.8):
                continue
            args = vs[::-1] if swap and r.random() < 0.5 else vs
            then = [dict(k="atom", p=new[j], a=list(args))]
            if r.random() < 0.15 and j + 1 < n and up[j + 1] == up[j]:
                then.append(dict(k="atom", p=new[j + 1], a=list(vs)))
            if fan:
                i, p, args = 0, new[0], vs
            ctx = dict(pos=up[i], p=p, a=list(vs))
            imp = dict(fa=[], cd=[], add=then if up[j] else [], **{"del": [] if up[j] else then})
            if wait:
                c = dict(k="atom", p=p, a=list(vs))
                ctx = dict(pos=True, p=wait, a=list(vs))
                imp = dict(fa=[], add=[], cd=[dict(c=c if up[i] else dict(k="not", f=c), e=imp)], **{"del": []})
            axs.append(dict(ps=copy.deepcopy(ps), ctx=ctx, imp=imp))
        k = r.random()
        axs = axs[::-1] if k < 0.3 else r.sample(axs, len(axs)) if k < 0.8 else axs
        D["axs"] = r.sample(D["axs"] + axs, len(D["axs"] + axs)) if D["axs"] and r.random() < 0.5 else D["axs"] + axs
        first = dict(k="atom", p=new[0], a=list(vs))
        name = r.choice([a for a in ACT_NAMES if a not in [x["n"] for x in D["acts"]]])
        D["acts"].append(dict(n=name, ps=copy.deepcopy(ps), pre=dict(k="and", fs=[]),
                              eff=dict(fa=[], cd=[], add=[first] if up[0] else [], **{"del": [] if up[0] else [first]})))
        self.load(D)

        def state():
            """What holds, and what does not, of the chain's propositions."""
            start = r.choice([0, 0, 1, n])
            bad = r.random() < 0.3
            pos, neg = [], []
            for t in self.tuples(ps):
                if wait:
                    (pos if r.random() < 0.9 else neg).append([wait] + list(t))
                for i, p in enumerate(new):
                    on = i >= start + r.randint(0, n) if bad else i > 0 and r.random() < 0.1
                    (pos if on == up[i] else neg).append([p] + list(t))
            return pos, neg
        return state, name

    def marathon(self, n):
        """Adds n axioms of which each pass over all of them gets only one further."""
        r, D = self.r, self.D
        new = ["link%d" % i for i in range(n + 1)]
        D["preds"] += [dict(n=p, ps=[]) for p in new + ["linkx"]]
        at = lambda p: dict(k="atom", p=p, a=[])
        none = lambda **k: dict(dict(fa=[], add=[], cd=[], **{"del": []}), **k)
        up = [r.random() < 0.7 for _ in new]
        axs = []
        for i, (p, q) in enumerate(zip(new, new[1:])):
            c = at(p) if up[i] else dict(k="not", f=at(p))
            axs.append(dict(ps=[], ctx=dict(pos=True, p="linkx", a=[]),
                            imp=none(cd=[dict(c=c, e=none(**{"add" if up[i + 1] else "del": [at(q)]}))])))
        axs.reverse()
        if r.random() < 0.3:
            i = r.randrange(n)
            axs[i:i + 3] = axs[i:i + 3][::-1]
        D["axs"] = axs
        self.load(D)
        # what starts the chain, and what the links are known to be, or not to be
        return [(["linkx"], True), ([new[0]], up[0])], [([p], u) for p, u in zip(new[1:], up[1:])]

    def _relayed(self):
        """Axioms that set themselves off again, along a relation."""
        r, D = self.r, self.D
        t = r.choice([t for t in self.oft if len(self.oft[t]) == max(map(len, self.oft.values()))])
        x, y, z = r.sample(VAR_NAMES, 3)
        v = lambda n: dict(n=n, t=t)
        at = lambda p, *a: dict(k="atom", p=p, a=list(a))
        none = lambda **k: dict(dict(fa=[], add=[], cd=[], **{"del": []}), **k)
        up = r.random() < 0.7
        put = lambda p, *a: none(**{"add" if up else "del": [at(p, *a)]})
        kind = r.choice(["unary", "unary", "transitive", "symmetric"])
        if kind == "unary":
            D["preds"] += [dict(n="linka", ps=[v(x)]), dict(n="linkb", ps=[v(x), v(y)])]
            first, ps = at("linka", x), [v(x)]
            axs = [dict(ps=r.sample([v(x), v(y)], 2), ctx=dict(pos=up, p="linka", a=[x]),
                        imp=none(cd=[dict(c=at("linkb", *r.choice([[x, y], [x, y], [y, x]])), e=put("linka", y))]))]
        else:
            D["preds"] += [dict(n="linkb", ps=[v(x), v(y)])]
            first, ps = at("linkb", x, y), [v(x), v(y)]
            if kind == "symmetric":
                axs = [dict(ps=r.sample(ps, 2), ctx=dict(pos=up, p="linkb", a=[x, y]), imp=put("linkb", y, x))]
            else:
                c = at("linkb", y, z) if up else dict(k="not", f=at("linkb", y, z))
                axs = [dict(ps=r.sample(ps + [v(z)], 3), ctx=dict(pos=up, p="linkb", a=[x, y]),
                            imp=none(cd=[dict(c=c, e=put("linkb", x, z))]))]
        D["axs"] = r.sample(D["axs"] + axs, len(D["axs"] + axs))
        name = r.choice([a for a in ACT_NAMES if a not in [q["n"] for q in D["acts"]]])
        D["acts"].append(dict(n=name, ps=copy.deepcopy(ps), pre=dict(k="and", fs=[]),
                              eff=none(**{"add" if up else "del": [first]})))
        self.load(D)

        def state():
            os = list(self.oft[t])
            os = os if r.random() < 0.3 else os[::-1] if r.random() < 0.4 else r.sample(os, len(os))
            pairs = list(zip(os, os[1:]))
            if kind != "unary" and r.random() < 0.5 and pairs:
                pairs.remove(r.choice(pairs))
            pos, neg = [], []
            for a, b in itertools.product(self.oft[t], repeat=2):
                on = ((a, b) in pairs) != (r.random() < 0.05)
                (pos if on == (up or kind == "unary") else neg).append(["linkb", a, b])
            if kind == "unary":
                for a in self.oft[t]:
                    on = r.random() < 0.05
                    (pos if on == up else neg).append(["linka", a])
            return pos, neg
        return state, name

    def _posformula(self, env, depth, anyp, posp):
        """posp only outside negations, anyp anywhere."""
        r = self.r
        if depth <= 0:
            a = self.atom(env, posp, False)
            return a if a is not None else dict(k="and", fs=[])
        k = r.choice(["and", "or", "and", "not", "forall", "exists", "exists"])
        if k in ("and", "or"):
            return dict(k=k, fs=[self._posformula(env, depth - 1, anyp, posp) for _ in range(r.choice([1, 2, 2, 3]))])
        if k == "not":
            return dict(k="not", f=self.formula(env, depth - 1, anyp))
        ps = self.params(1, [v for v, _ in env])
        return dict(k=k, ps=ps, f=self._posformula(env + [(ps[0]["n"], ps[0]["t"])], depth - 1, anyp, posp))


def _cap(x):
    return min(x, 10 ** 9)


def _dneg(x):
    k = _cap(x[1] ** min(x[0], 64))
    return k, x[0], max(x[2], k)


def _dand(xs):
    k, m, w = 1, 0, 1
    for x in xs:
        k, m, w = _cap(k * max(1, x[0])), m + x[1], max(w, x[2])
    return k, max(1, m), max(w, k)


def _dor(xs):
    k = _cap(sum(x[0] for x in xs))
    return k, max([1] + [x[1] for x in xs]), max([1, k] + [x[2] for x in xs])


# -------------------------------------------------------------------- as text
class Text:
    """Writes domains as PDDL; the random source varies the spelling."""

    def __init__(self, rng):
        self.r = rng

    def ws(self):
        return self.r.choice([" ", " ", " ", "  ", "\n ", "\t", " ; note (x) y\n "])

    def typed(self, xs):
        """Typed list; consecutive names of one type may share it, trailing untyped
        names have type object."""
        r = self.r
        out, i = [], 0
        while i < len(xs):
            j = i + 1
            while j < len(xs) and xs[j]["t"] == xs[i]["t"] and r.random() < 0.7:
                j += 1
            names = [x["n"] for x in xs[i:j]]
            if j == len(xs) and xs[i]["t"] == "object" and r.random() < 0.5:
                out += names
            else:
                out += names + ["-", xs[i]["t"]]
            i = j
        return " ".join(out)

    def sx(self, *parts):
        return "(" + self.ws().join(x for x in parts if x != "") + ")"

    def atom(self, a):
        return "(" + " ".join([a["p"]] + list(a["a"])) + ")"

    def formula(self, f):
        k = f["k"]
        if k == "raw":
            return f["text"]
        if k == "atom":
            return self.atom(f)
        if k in ("and", "or"):
            if k == "and" and not f["fs"] and self.r.random() < 0.3:
                return "()"
            return self.sx(k, *[self.formula(x) for x in f["fs"]])
        if k == "not":
            return self.sx("not", self.formula(f["f"]))
        return self.sx(k, "(" + self.typed(f["ps"]) + ")", self.formula(f["f"]))

    def effect(self, e):
        groups = [[self.sx("forall", "(" + self.typed(x["ps"]) + ")", self.effect(x["e"])) for x in e["fa"]],
                  [self.atom(x) for x in e["add"]],
                  [self.sx("not", self.atom(x)) for x in e["del"]],
                  [self.sx("when", self.formula(x["c"]), self.effect(x["e"])) for x in e["cd"]]]
        items = []
        while any(groups):
            g = self.r.choice([g for g in groups if g])
            items.append(g.pop(0))
        if len(items) == 1 and self.r.random() < 0.5:
            return items[0]
        if not items and self.r.random() < 0.5:
            return "()"
        return self.sx("and", *items)

    def prop(self, q):
        return "(" + " ".join(q) + ")"

    def domain(self, D):
        r = self.r
        parts = [":requirements :adl :derived-predicates"] if r.random() < 0.8 else []
        secs = ["(define (domain %s)" % D["name"]]
        if r.random() < 0.8:
            secs.append("(:requirements :adl :derived-predicates)")
        del parts
        if D["types"] or r.random() < 0.5:
            ts = [dict(n=t["n"], t=t["p"]) for t in D["types"]]
            secs.append(self.sx(":types", self.typed(ts)))
        if D["consts"] or r.random() < 0.3:
            secs.append(self.sx(":constants", self.typed(D["consts"])))
        secs.append(self.sx(":predicates", *["(" + (p["n"] + " " + self.typed(p["ps"])).strip() + ")" for p in D["preds"]]))
        ops = [self.action(a) for a in D["acts"]]
        axs = [self.axiom(a) for a in D["axs"]]
        drv = [self.sx(":derived", "(" + (d["p"] + " " + self.typed(d["ps"])).strip() + ")", self.formula(d["body"]))
               for d in D["drvs"]]
        groups = [ops, axs, drv]
        while any(groups):
            g = r.choice([g for g in groups if g])
            secs.append(g.pop(0))
        return "\n".join(secs) + "\n)\n"

    def action(self, a):
        parts = [":action " + a["n"]]
        if a["ps"] or self.r.random() < 0.7:
            parts.append(":parameters (" + self.typed(a["ps"]) + ")")
        trivial = a["pre"] == dict(k="and", fs=[])
        if not trivial or self.r.random() < 0.6:
            parts.append(":precondition " + self.formula(a["pre"]))
        parts.append(":effect " + self.effect(a["eff"]))
        return self.sx(*parts)

    def axiom(self, a):
        ctx = self.atom(a["ctx"])
        if not a["ctx"]["pos"]:
            ctx = self.sx("not", ctx)
        return self.sx(":axiom", ":vars (" + self.typed(a["ps"]) + ")", ":context " + ctx,
                       ":implies " + self.effect(a["imp"]))

    def problem(self, D):
        secs = ["(define (problem %s-p) (:domain %s)" % (D["name"], D["name"])]
        if D["objs"] or self.r.random() < 0.5:
            secs.append(self.sx(":objects", self.typed(D["objs"])))
        secs.append(self.sx(":init", *[self.prop(q) for q in D["init"]]))
        secs.append(self.sx(":goal", self.formula(D["goal"])))
        return "\n".join(secs) + "\n)" + self.r.choice(["", "\n", " \n\t"])


def with_objs(D, objs, consts=None):
    D2 = copy.deepcopy(D)
    D2["objs"] = objs
    if consts is not None:
        D2["consts"] = consts
    return D2
