"""Scenarios: one random session of a given flavour each."""

import copy

SMALL = dict(types=3, max_objs=4, preds=4, acts=2, act_params=2, depth=2, max_tuples=16)


def _mix(P, n, table):
    ops = [f for f, w in table for _ in range(w)]
    for _ in range(n):
        P.r.choice(ops)()


def states(P, n=60):
    """C01, C02: histories of set operations."""
    P.load(P.fresh(), flag=False)
    hot = [P.prop(0.3) for _ in range(P.r.choice([2, 4, 8, 16]))]
    q = lambda: P.r.choice(hot) if P.r.random() < 0.9 else None
    _mix(P, n, [(lambda: P.s_insert(q=q()), 12), (lambda: P.s_erase(q=q()), 8), (lambda: P.s_contains(q=q()), 6),
                (P.s_list, 4), (P.s_str, 1), (lambda: P.s_two("s.copy"), 2), (lambda: P.s_two("s.assign"), 2),
                (lambda: P.s_two("s.move"), 2), (lambda: P.s_two("s.merge"), 2), (P.s_new, 1),
                (lambda: P.s_any(extra=0.4), 2), (P.s_reserve, 1), (lambda: P.s_two("s.cmp"), 3)])
    for reg in ("s0", "s1", "s2"):
        P.s_list(reg)
        for x in hot:
            P.s_contains(reg, x)


def values(P, n=60):
    """C02: equality, hash and order."""
    P.load(P.fresh(), flag=False)
    hot = [P.prop(0.2) for _ in range(P.r.choice([2, 3, 6]))]
    q = lambda: P.r.choice(hot)
    _mix(P, n, [(P.prop_cmp, 6), (lambda: P.prop_cmp(q(), q()), 4), (P.obj_cmp, 4), (lambda: P.s_two("s.cmp"), 10),
                (lambda: P.p_two("p.cmp"), 8), (lambda: P.s_insert(q=q()), 8), (lambda: P.s_erase(q=q()), 6),
                (lambda: P.p_insert(q=q()), 6), (lambda: P.p_erase(q=q()), 6), (P.nodecmp, 3),
                (lambda: P.s_two("s.copy"), 1), (lambda: P.p_two("p.copy"), 1), (lambda: P.s_any(), 1), (P.p_any, 1),
                (lambda: P.s_two("s.merge"), 1)])
    # rebuild the contents of s0 another way
    r, _ = P.s_list("s0")
    items = list(r["l"])
    P.r.shuffle(items)
    P.simple("s.new", "s1", s="s1")
    for x in items:
        P.s_insert("s1", x)
    P.s_two("s.cmp", "s0", "s1")
    # ... through a larger set that shrinks again
    P.s_two("s.copy", "s1", "s2")
    extra = [x for x in P.G.ground() if x not in items]
    for x in extra[:12]:
        P.s_insert("s2", x)
    P.s_two("s.cmp", "s0", "s2")
    for x in extra[:12]:
        P.s_erase("s2", x)
    P.s_two("s.cmp", "s0", "s2")


def partials(P, n=60):
    """C03."""
    P.load(P.fresh(), flag=False)
    hot = [P.prop(0.3) for _ in range(P.r.choice([1, 3, 6, 10]))]
    q = lambda: P.r.choice(hot) if P.r.random() < 0.9 else None
    _mix(P, n, [(lambda: P.p_insert(q=q()), 10), (lambda: P.p_erase(q=q()), 10), (lambda: P.p_contains(q=q()), 6),
                (P.p_list, 4), (P.p_str, 1), (lambda: P.p_two("p.copy"), 2), (P.p_any, 1),
                (lambda: P.p_two("p.cmp"), 3)])
    for _ in range(2):
        # claims that may contradict one another: only whether they do is asked
        both = set(map(tuple, P.r.sample(hot, P.r.randint(0, min(2, len(hot))))))
        P.p_set("px", {tuple(P.prop()) for _ in range(4)} | both, {tuple(P.prop()) for _ in range(4)} | both)
        P.p_list("px")
    for reg in ("p0", "p1"):
        P.p_list(reg)
        for x in hot:
            P.p_contains(reg, x)


def enumeration(P, n=10):
    """C05."""
    P.load(P.fresh(types=5, max_objs=6, act_params=4, preds=6, max_tuples=120), flag=False, alone=0.07)
    for i, p in enumerate(P.D["preds"]):
        P.R.rec("params", ["params", "pred", p["n"]], kind="pred", i=i + 1)
    for i, a in enumerate(P.D["acts"]):
        for k in ("action", "gen"):
            P.R.rec("params", ["params", k, a["n"]], kind="act", i=i + 1)
    for o in P.G.objs:
        P.simple("object", o["n"], n=o["n"])
        for t in list(P.G.oft) + ["no-such-type"]:
            P.simple("subtype", o["n"], t, n=o["n"], t=t)
    P.simple("object", "nobody", n="nobody")
    P.pg_walk(25)


def index(P, n=50):
    """C06."""
    P.load(P.fresh(types=4, max_objs=6, preds=6, acts=1, alike=0.6), flag=False, alone=0.07)
    P.R.rec("ix.size", ["ix.size", "main"])
    P.R.rec("ix.all", ["ix.all", "main"])
    P.ix_walk(n)


def formulas(P, n=40):
    """C07."""
    P.load(P.fresh(depth=4, fmax=3, act_params=3, derived=P.r.choice([0, 0, 1]), max_objs=4), flag=False, alone=0.07)
    for _ in range(n // 8):
        s = P.s_any("s0", extra=0.1)
        P.one("goal", s)
        for _ in range(4):
            P.valid(s)
        for _ in range(4):
            P.valid_tip("s0")
        P.goal_tip("s1")


def formulas3(P, n=40):
    """C08."""
    P.load(P.fresh(depth=4, act_params=3, max_objs=4), flag=False, alone=0.07)
    for _ in range(n // 8):
        p = P.p_any("p0", total=P.r.random() < 0.2)
        P.one("pgoal", p)
        for _ in range(3):
            P.pvalid(p)
        for _ in range(4):
            P.valid_tip("p1", True)
        P.goal_tip("p2", True)


def effects(P, n=40):
    """C09 (no axioms)."""
    P.load(P.fresh(depth=2, effect_depth=3, max_objs=4), flag=P.r.random() < 0.5, alone=0.07)
    for _ in range(n // 6):
        s = P.s_any("s0")
        for _ in range(3):
            P.on_act("actc", s)
        for _ in range(2):
            P.on_act("act", s)
        P.act_tip("actc", "s1")
        P.act_tip("act", "s2")


def derived(P, n=24):
    """C10."""
    if P.r.random() < 0.3:
        g = P.fresh(derived=P.r.choice([0, 0, 1]), depth=2, effect_depth=1, max_objs=5, acts=1)
        state = g.chained()
        if not P.load(g, flag=False, alone=0.07):
            return
        for _ in range(n // 6):
            s = P.s_set("s0", state())
            P.one("derived", s)
            P.next(s, 0)
            P.one("derivedip", s)
        return
    # now and then there are no rules at all
    if not P.load(P.fresh(derived=P.r.choice([0] + 9 * [3]), depth=2, effect_depth=1, max_objs=4, acts=2), flag=False, alone=0.07):
        return
    for _ in range(n // 4):
        s = P.s_any("s0")
        P.one("derived", s)
        P.one_rule(s)
        P.one("derivedip", s)
        P.one_rule(s)
        P.one("derived", s)
        for _ in range(2):
            P.next(s, 0)
        P.applyall(s, 0)


def axioms(P, n=40):
    """C11."""
    if P.r.random() < 0.03:
        return marathon(P, False)
    if P.r.random() < 0.2:
        return cascade(P, n, False)
    if not P.load(P.fresh(axioms=4, depth=2, effect_depth=1, max_objs=4, derived=P.r.choice([0, 0, 0, 1])),
                  flag=P.r.random() < 0.6, alone=0.2):
        return
    for _ in range(n // 8):
        s = P.s_any("s0", density=P.r.choice([0.15, 0.4]))
        P.one("validstate", s)
        P.one("consistent", s)
        P.axiom("ax.cons", s)
        for _ in range(2):
            P.on_act("actc", s)
        P.on_act("act", s)
        P.axiom("ax.apply", s)
        r, e = P.R.rec("consistent", ["consistent", s], s=s)
        if not e:
            P.simple("s.from", "s1", 1, ";".join(" ".join(q) for q in r), s="s1", qs=r)
            P.one("validstate", "s1")
            P.one("consistent", "s1")
            for i in range(len(P.D["axs"])):
                P.simple("ax.cons", "s1", i, s="s1", i=i + 1)
            P.on_act("act", "s1")


def partial_actions(P, n=40):
    """C12."""
    if P.r.random() < 0.03:
        return marathon(P, True)
    if P.r.random() < 0.2:
        return cascade(P, n, True)
    if not P.load(P.fresh(axioms=P.r.choice([0, 3, 4, 5]), depth=2, effect_depth=2, max_objs=4,
                          ax_cond=P.r.random() < 0.6), flag=False, alone=0.07):
        return
    for _ in range(n // 8):
        p = P.p_any("p0", total=P.r.random() < 0.15)
        P.one("pvalidstate", p)
        P.one("pconsistent", p)
        P.axiom("ax.pcons", p)
        for _ in range(2):
            P.on_act("pactc", p)
        P.on_act("pact", p)
        P.axiom("ax.papply", p)
        P.on_act("pact", p)
        P.act_tip("pactc", "p1", True)
        P.act_tip("pact", "p1", True)
        if P.D["axs"]:
            contradiction(P)
            contradiction(P)


def marathon(P, partial):
    """Closing that takes very many passes."""
    r = P.r
    g = P.fresh(axioms=0, depth=1, effect_depth=1, max_objs=2, acts=1, preds=2, max_tuples=4)
    first, links = g.marathon(r.choice([30, 50, 51, 52, 64, 80]))
    if not P.load(g, flag=False, alone=0.1):
        return
    for _ in range(2):
        if partial:
            known = first + r.sample(links, r.choice([0, 0, 1, 2]))
            if r.random() < 0.4:
                # an obstacle, mostly far on
                q, u = links[-1 - r.randrange(min(5, len(links)))]
                known = [k for k in known if k[0] != q] + [(q, not u)]
            p = P.p_set("p0", [q for q, u in known if u], [q for q, u in known if not u])
            P.one("pvalidstate", p)
            P.one("pconsistent", p)
            P.one("pvalidstate", p)
        else:
            done = r.choice([0, 0, 0, 5, len(links)])
            s = P.s_set("s0", [q for q, u in first if u] + [q for i, (q, u) in enumerate(links) if u == (i < done)])
            P.one("validstate", s)
            P.one("consistent", s)
            P.one("validstate", s)


def cascade(P, n, partial):
    """Long chains of axioms."""
    r = P.r
    g = P.fresh(axioms=r.choice([0, 0, 2]), depth=1, effect_depth=1, max_objs=4, acts=1, preds=3)
    state, start = g.cascading()
    if not P.load(g, flag=not partial and r.random() < 0.6, alone=0.25):
        return
    chain = {c["n"] for c in P.D["preds"] if c["n"].startswith("link")}
    ps = [a for a in P.D["acts"] if a["n"] == start][0]["ps"]
    ts = P.G.tuples(ps)
    for _ in range(n // 8):
        pos, neg = state()
        rest = [q for q in P.G.some_props(0.3) if q[0] not in chain]
        if not partial:
            s = P.s_set("s0", pos + rest)
            P.one("validstate", s)
            P.one("consistent", s)
            P.axiom("ax.cons", s)
            P.axiom("ax.apply", s)
        else:
            d = r.choice([0, 0.05, 0.1, 0.4])
            known = lambda qs: [q for q in qs if r.random() < d]
            a, b = known(pos), known(neg)
            if r.random() < 0.6:
                # little is known but where the chain starts, and perhaps an obstacle farther on
                firm = [q for q in pos if q[0] in ("linkx", "linkb")] + r.sample(pos + neg, min(2, len(pos + neg)))
                a, b = a + [q for q in firm if q in pos and q not in a], b + [q for q in firm if q in neg and q not in b]
            s = P.p_set("p0", a + rest, b)
            P.one("pvalidstate", s)
            P.one("pconsistent", s)
            P.axiom("ax.pcons", s)
            P.axiom("ax.papply", s)
        for _ in range(2):
            if ts:
                t = list(r.choice(ts))
                P.simple("pactc" if partial else "actc", s, start, " ".join(t), s=s, a=start, args=t)
                P.one("pconsistent" if partial else "consistent", s)
        P.on_act("pactc" if partial else "actc", s)


def contradiction(P):
    """A partial state that denies, or grants, some of what closing it adds."""
    r = P.r
    lits = [(tuple(q), r.random() < 0.5) for q in P.G.ground() if r.random() < r.choice([0.15, 0.35])]
    for ax in P.D["axs"]:
        if r.random() < 0.5:
            t = P.G.tuples(ax["ps"])
            if t:
                env = {p["n"]: o for p, o in zip(ax["ps"], r.choice(t))}
                lits.append(((ax["ctx"]["p"],) + tuple(env.get(x, x) for x in ax["ctx"]["a"]), ax["ctx"]["pos"]))
    K = dict(lits)
    put = lambda: P.p_set("p2", {q for q in K if K[q]}, {q for q in K if not K[q]})
    put()
    x, e = P.one("pconsistent", "p2")
    P.one("pvalidstate", "p2")
    if e:
        return
    more = [(tuple(q), b) for k, b in (("pos", True), ("neg", False)) for q in x[k]]
    more = [y for y in more if y[0] not in K]
    r.shuffle(more)
    for q, b in more[:8]:
        K[q] = not b
        put()
        P.one("pvalidstate", "p2")
        if r.random() < 0.4:
            P.one("pconsistent", "p2")
            for i in range(len(P.D["axs"])):
                P.simple("ax.pcons", "p2", i, s="p2", i=i + 1)
        if r.random() < 0.3:
            K[q] = b
        else:
            del K[q]


TINY = dict(types=1, max_objs=2, preds=4, acts=2, act_params=2, depth=3, effect_depth=2)


def every_state(P, ops, most=400, **feat):
    """Every complete state of a tiny domain."""
    if not P.load(P.fresh(max_ground=6, **dict(TINY, **feat)), flag=False, alone=0.07):
        return
    g = P.G.ground()
    calls = [(a["n"], list(t)) for a in P.D["acts"] for t in P.G.tuples(a["ps"])]
    todo = list(range(2 ** len(g)))
    P.r.shuffle(todo)
    count = 0
    for k in todo:
        if count > most:
            return
        S = [q for i, q in enumerate(g) if k >> i & 1]
        P.s_set("s0", S)
        count += 1 + ask(P, ops, "s0", calls)


def every_partial(P, ops, most=700, **feat):
    """Every partial state of a tiny domain (as many as the budget allows)."""
    if not P.load(P.fresh(max_ground=5, **dict(TINY, **feat)), flag=False, alone=0.07):
        return
    g = P.G.ground()
    calls = [(a["n"], list(t)) for a in P.D["acts"] for t in P.G.tuples(a["ps"])]
    todo = list(range(3 ** len(g)))
    P.r.shuffle(todo)
    count = 0
    for k in todo:
        if count > most:
            return
        know = [(q, k // 3 ** i % 3) for i, q in enumerate(g)]
        P.p_set("p0", [q for q, v in know if v == 1], [q for q, v in know if v == 2])
        count += 1 + ask(P, ops, "p0", calls)


def ask(P, ops, reg, calls):
    n = 0
    for op in ops:
        if op in ("valid", "pvalid", "actc", "pactc"):
            if calls:
                a, args = P.r.choice(calls)
                P.R.rec(op, [op, reg, a, " ".join(args)], s=reg, a=a, args=args)
                n += 1
        elif op in ("ax.cons", "ax.pcons"):
            i = P.r.randrange(max(1, len(P.D["axs"])))
            if P.D["axs"]:
                P.simple(op, reg, i, s=reg, i=i + 1)
                n += 1
        elif op == "next":
            if calls:
                a, args = P.r.choice(calls)
                P.R.rec("next", ["next", reg, P.spell([a] + args)], s=reg, call=[a] + args)
                n += 1
        else:
            P.one(op, reg)
            n += 1
    return n


def calls(P, n=30):
    """C13."""
    if not P.load(P.fresh(axioms=P.r.choice([0, 0, 2]), derived=P.r.choice([0, 0, 2]), depth=2, effect_depth=1,
                          max_objs=4, acts=3, max_tuples=25), flag=P.r.random() < 0.5, alone=0.07):
        return
    P.getinit("s0")
    path = P.valid_path("s0", 3)
    P.plan(path)
    for k in range(len(path)):
        P.plan(path[:k])
    P.R.rec("applyall", ["applyall", "s0"] + [P.spell(c) for c in path], s="s0", calls=path)
    if path:
        bad = list(path)
        bad[P.r.randrange(len(bad))] = P.call(0.3)
        P.plan(bad)
    for _ in range(n // 6):
        s = P.s_any("s1")
        P.listacts(s)
        P.listargs(s)
        P.validact(s)
        P.next(s)
        P.applyall(s)
        P.plan()
        c = P.call(0.1)
        r, e = P.R.rec("next", ["next", s, P.spell(c)], s=s, call=c)
        if not e:
            P.simple("s.from", "s2", 1, ";".join(" ".join(q) for q in r), s="s2", qs=r)
            P.tuple(s, c, "s2")
            if P.r.random() < 0.5:
                P.s_insert("s2") if P.r.random() < 0.5 else P.s_erase("s2")
                P.tuple(s, c, "s2")
        P.setinit(s) if P.r.random() < 0.2 else None


def text(P, n=40):
    """C14."""
    P.load(P.fresh(act_params=4), flag=False, alone=0.07)
    s = P.s_any("s0")
    _mix(P, n, [(P.prop_str, 4), (P.pred_str, 2), (P.prop_parse, 5), (lambda: P.parse_action(0.5), 10), (P.object, 2),
                (lambda: P.next(s, 0.7), 2), (lambda: P.validact(s, 0.7), 2), (lambda: P.plan(bad=0.5), 1),
                (lambda: P.applyall(s, 0.7), 1)])


def expansion(P, n=4):
    """C15."""
    if not P.load(P.fresh(axioms=P.r.choice([0, 0, 2]), derived=P.r.choice([0, 0, 2]), depth=2, effect_depth=1,
                          max_objs=4, acts=3, max_tuples=12, contradict=False), flag=P.r.random() < 0.5):
        return
    for k in range(n):
        if k == 0:
            s = "s0"
            P.getinit(s)
        else:
            s = P.s_any("s0")
        P.children_walk(s, 3)
        P.rchildren(s)
        P.s_any("s1")
        P.nodecmp()


def objects(P, n=20):
    """C21."""
    if P.r.random() < 0.1:
        # a domain by itself
        if not P.load(P.fresh(axioms=P.r.choice([0, 1]), typepred=False, depth=2, max_tuples=12), domain_only=True):
            return
        P.addnone()
        for _ in range(n // 10):
            P.delobj()
            P.print()
            P.params()
            P.object()
            P.valid(P.s_any("s0"))
        return
    if P.r.random() < 0.3:
        return _objects_chain(P, n)
    if not P.load(P.fresh(axioms=P.r.choice([0, 1]), typepred=False, empty_types=False, max_objs=5, min_objs=4,
                          depth=2, derived=P.r.choice([0, 0, 1]), max_tuples=12), flag=False):
        return
    for _ in range(n // 5):
        (P.addobj if P.r.random() < 0.55 else P.delobj)()
        if P.r.random() < 0.4:
            P.print()
        queries(P, 8)


def _objects_chain(P, n):
    """Objects that come and go under chains of axioms, or of derived predicates."""
    r = P.r
    g = P.fresh(axioms=0, typepred=False, empty_types=False, max_objs=4, min_objs=3, depth=1, effect_depth=1, acts=1,
                preds=3, max_tuples=12)
    axioms = r.random() < 0.7
    state, start = g.cascading() if axioms else (g.chained(), None)
    if not P.load(g, flag=False):
        return
    names = {c["n"] for c in P.D["preds"] if c["n"].startswith("link")} if axioms else set()
    for _ in range(n // 7):
        (P.addobj if r.random() < 0.6 else P.delobj)()
        acts = [a for a in P.D["acts"] if a["n"] == start]
        ts = P.G.tuples(acts[0]["ps"]) if axioms else []
        for _ in range(2):
            qs = state()[0] + [q for q in P.G.some_props(0.3) if q[0] not in names] if axioms else state()
            s = P.s_set("s0", qs)
            if axioms:
                P.one("validstate", s)
                P.one("consistent", s)
                P.axiom("ax.cons", s)
                for _ in range(2 if ts else 0):
                    t = list(r.choice(ts))
                    P.simple("actc", s, start, " ".join(t), s=s, a=start, args=t)
            else:
                P.one("derived", s)
                P.one_rule(s)
                P.next(s, 0)
        queries(P, 2)


def queries(P, n):
    """Any queries at all."""
    s, p = P.s_any("s0"), P.p_any("p0")
    _mix(P, n, [(lambda: P.valid(s), 3), (lambda: P.pvalid(p), 2), (lambda: P.one("goal", s), 2),
                (lambda: P.one("pgoal", p), 1), (lambda: P.on_act("actc", s), 2), (P.dnf, 2), (lambda: P.on_act("pactc", p), 1),
                (lambda: P.one("derived", s), 1), (lambda: P.one("consistent", s), 1),
                (lambda: P.one("validstate", s), 1), (lambda: P.one("pvalidstate", p), 1),
                (lambda: P.next(s), 2), (lambda: P.validact(s), 1), (lambda: P.listacts(s), 2),
                (lambda: P.listargs(s), 1), (P.params, 3), (P.object, 1), (P.subtype, 1), (P.parse_action, 1),
                (lambda: P.plan(), 1), (lambda: P.rchildren(s), 1), (lambda: P.axiom("ax.cons", s), 1),
                (lambda: P.axiom("ax.pcons", p), 1), (lambda: P.one("pconsistent", p), 1), (lambda: P.one_rule(s), 1),
                (lambda: P.R.rec("ix.size", ["ix.size", "main"]), 1),
                (lambda: P.R.rec("ix.all", ["ix.all", "main"]), 1),
                (lambda: P.R.rec("ix.vec", ["ix.vec", "main", s], s=s), 1), (P.fstr, 1)])


def loading(P, n=6):
    """C22."""
    ids = []
    for k in range(n):
        g = P.fresh(axioms=P.r.choice([0, 2]), derived=P.r.choice([0, 0, 2]), depth=3)
        alone = P.r.random() < 0.2
        if P.r.random() < 0.3:
            P.load_bad(g)
            if ids:
                P.use(ids[-1])
                P.summary()
        if P.load(g, id="P%d" % k, domain_only=alone):
            ids.append("P%d" % k)
            P.summary()
            P.backptr()
            P.getinit("s0")
            if not alone:
                P.one("goal", "s0")
            P.params()
            if P.r.random() < 0.7:
                P.print()
            s = P.s_any("s0")
            _mix(P, 4, [(lambda: P.valid(s), 1), (lambda: P.next(s), 1), (lambda: P.listacts(s), 1),
                        (lambda: P.one("consistent", s), 1), (P.object, 1), (P.subtype, 1),
                        (lambda: P.R.rec("ix.all", ["ix.all", "main"]), 1)])


def purity(P, n=60):
    """C23."""
    ids, first = [], None
    for k in range(P.r.choice([1, 2, 3])):
        if first and P.r.random() < 0.6:
            g, dom = P.sibling(first), P.domfile
        else:
            g, dom = P.fresh(axioms=P.r.choice([0, 1, 2]), derived=P.r.choice([0, 1]), depth=2, max_objs=4,
                             max_tuples=16, contradict=False, typepred=P.r.random() < 0.5), None
        if P.load(g, id="P%d" % k, dom=dom):
            ids.append("P%d" % k)
            first = g
    if not ids:
        return
    for _ in range(n // 10):
        P.use(P.r.choice(ids))
        s = P.s_any("s0")
        queries(P, 6)
        if len(ids) > 1 and P.r.random() < 0.7:
            # the same questions of every problem, alternating
            cs = [P.call() for _ in range(2)]
            for _ in range(2):
                for i in ids:
                    P.use(i)
                    s = P.s_any("s0")
                    for c in cs:
                        P.R.rec("next", ["next", s, P.spell(c)], s=s, call=c)
                        P.R.rec("validact", ["validact", s, P.spell(c)], s=s, call=c)
                    P.listacts(s)
                    P.params()
        P.s_list(s)
        P.p_list("p0")
        x = P.r.random()
        if x < 0.15:
            P.setinit("s0")
            P.again()
        elif x < 0.3:
            P.changed()
        elif x < 0.5:
            P.ix_walk(6)
        elif x < 0.6:
            P.children_walk("s0", 1)
        P.getinit("s1")
        P.plan()
        P.summary()
    # let go of everything, then load the same words with other meanings
    k, g = ids[-1], P.ids[ids[-1]]
    states = [g.some_props(0.4) for _ in range(3)]
    for _ in range(3):
        P.R.rec("reset", ["reset"])
        if not P.load(g, id=k):
            return
        for qs in states:
            P.s_set("s0", qs)
            P.listacts("s0")
            P.one("goal", "s0")
            _mix(P, 4, [(lambda: P.valid("s0"), 2), (lambda: P.next("s0"), 2), (lambda: P.on_act("actc", "s0"), 1),
                        (lambda: P.one("consistent", "s0"), 1), (lambda: P.one("validstate", "s0"), 1),
                        (lambda: P.rchildren("s0"), 1), (P.dnf, 1), (P.params, 1)])
        g = g.rewritten()


def planning(P, n=6, ops=("bfs", "dfs", "astar")):
    """C16, C17: searches with the planner."""
    if not P.load(P.fresh(axioms=P.r.choice([0, 0, 2]), derived=P.r.choice([0, 0, 2]), depth=2, effect_depth=1,
                          max_objs=3, acts=P.r.choice([2, 3, 4, 5]), act_params=P.r.choice([1, 2]), max_tuples=5,
                          contradict=False, plan_goal=True, typepred=False), flag=P.r.random() < 0.5):
        return
    for k in range(n):
        if k == 0:
            P.getinit("s0")
        else:
            P.s_any("s0")
        if P.D["goal"]["fs"] and P.r.random() < 0.85:
            # not there yet
            x = P.r.choice(P.D["goal"]["fs"])
            q = (x["f"] if x["k"] == "not" else x)
            (P.s_insert if x["k"] == "not" else P.s_erase)("s0", [q["p"]] + q["a"])
        P.search("s0", ops)


def normal_forms(P, n=16):
    """C18."""
    g = P.fresh(axioms=P.r.choice([0, 3, 3]), derived=P.r.choice([0, 0, 1]), depth=3, effect_depth=2,
                max_objs=P.r.choice([2, 3, 4]), fmax=P.r.choice([2, 3]))
    if g.D["axs"] and P.r.random() < 0.7:
        g.D["goal"] = g.clashing()
    if not P.load(g, flag=False, alone=0.07):
        return
    P.dnf("dnf.goal")
    for _ in range(n):
        P.dnf()


def printing(P, n=6):
    """C19."""
    if not P.load(P.fresh(depth=5, act_params=3, axioms=P.r.choice([0, 0, 1]), derived=P.r.choice([0, 1])), flag=False):
        return
    for a in P.D["acts"]:
        P.fstr(a["n"])
    if not P.reload_printed("Q"):
        return
    for _ in range(n):
        s = P.s_any("s0")
        P.one("goal", s)
        P.valid(s)
    P.fstr()


def built(P, n=8):
    """C20: the library reads what the builder writes."""
    P.load(P.fresh(depth=4), domain_only=False)
    for k in range(2):
        if P.load_built("B%d" % k):
            P.summary()
            P.getinit("s0")
            P.one("goal", "s0")
            for _ in range(n):
                P.one("goal", P.s_any("s0"))


def hunt(P, s):
    """A search from a state that isn't there yet, mostly."""
    qs = P.G.some_props(P.r.choice([0.2, 0.5]))
    if P.D["goal"]["fs"] and P.r.random() < 0.85:
        x = P.r.choice(P.D["goal"]["fs"])
        f = x["f"] if x["k"] == "not" else x
        if f["k"] == "atom":
            q = [f["p"]] + f["a"]
            qs = [p for p in qs if p != q] + ([q] if x["k"] == "not" else [])
    P.s_set(s, qs)
    P.search(s, ("bfs",))


def module(P, n=40):
    """C24: the same questions asked through the Python module."""
    P.module = True
    kind = P.r.choice(["any", "any", "objects", "search"])
    feats = dict(axioms=P.r.choice([0, 2, 3]), derived=P.r.choice([0, 0, 2]), depth=P.r.choice([2, 3]), max_objs=4,
                 max_tuples=12, contradict=P.r.random() < 0.3, act_params=P.r.choice([2, 3]), typepred=P.r.random() < 0.5)
    if kind == "objects":
        feats.update(typepred=False, empty_types=False, min_objs=3)
    elif kind == "search":
        feats.update(depth=2, effect_depth=1, max_objs=3, max_tuples=5, contradict=False, plan_goal=True, typepred=False)
    g = P.fresh(**feats)
    if g.D["axs"] and kind != "search" and P.r.random() < 0.5:
        g.D["goal"] = g.clashing()
    if P.r.random() < 0.15:
        P.load(g, id="D", domain_only=True)
        P.params()
        P.pickled("D2", P.G, False)
        P.summary()
    if not P.load(g, id="P0"):
        return
    loaded, asks = copy.deepcopy(P.G), lambda: P.r.choice(["s0", "s1"])
    known, seen = {"P0": loaded}, ["P0"]
    P.s_any("s0")
    P.s_any("s1")
    for _ in range(n):
        x = P.r.random()
        if x < 0.15:
            P.s_any(asks())
        elif x < 0.18:
            P.setinit(asks())
        elif x < 0.21 and kind == "objects":
            (P.addobj if P.r.random() < 0.55 else P.delobj)()
            P.s_any("s0")
            P.s_any("s1")
        elif x < 0.24:
            k = "P%d" % len(seen)
            base = known[P.cur]
            known[k] = copy.deepcopy(base)
            if P.pickled(k, copy.deepcopy(base)):
                seen.append(k)
            P.s_any("s0")
            P.s_any("s1")
        elif x < 0.27:
            P.use(P.r.choice(seen))
            P.s_any("s0")
            P.s_any("s1")
        s, p = asks(), "p0"
        _mix(P, 1, [(lambda: P.next(s), 3), (lambda: P.validact(s), 3), (lambda: P.applyall(s), 2), (P.plan, 1),
                    (lambda: P.plan(P.valid_path(s, 2)), 1), (lambda: P.tuple(s, b=asks()), 2), (lambda: P.listacts(s), 2),
                    (lambda: P.listargs(s), 2), (lambda: P.one("goal", s), 2), (lambda: P.one("derived", s), 2),
                    (lambda: P.one("consistent", s), 2), (lambda: P.one("validstate", s), 2),
                    (lambda: P.one("pconsistent", P.p_any(p)), 2), (lambda: P.one("pvalidstate", P.p_any(p)), 2),
                    (P.parse_action, 2), (P.pred_str, 1), (P.subtype, 2), (P.params, 2), (P.pgen, 3), (P.ix_any, 3),
                    (lambda: P.children_walk(s, 2, plain=True), 1),
                    ((lambda: hunt(P, s)) if kind == "search" else P.summary, 6 if kind == "search" else 1),
                    (lambda: P.dnf(P.r.choice(["dnf.pre", "dnf.post", "dnf.goal", "dnf.cond"])), 3),
                    (P.conj_consistent, 2), (P.bad_state, 2), (P.summary, 1), (lambda: P.getinit("sinit"), 1), (P.fstr, 1)])


# whole state spaces of tiny domains
SPACES = dict(
    C07=lambda P: every_state(P, ["valid", "valid", "goal"], nullary=True),
    C08=lambda P: every_partial(P, ["pvalid", "pgoal"]),
    C09=lambda P: every_state(P, ["actc", "actc", "actc"], effect_depth=3),
    C10=lambda P: every_state(P, ["derived", "next"], derived=2, effect_depth=1),
    C11=lambda P: every_state(P, ["validstate", "consistent", "actc", "ax.cons"], axioms=4, effect_depth=1,
                              ax_cond=P.r.random() < 0.5),
    C12=lambda P: every_partial(P, ["pvalidstate", "pconsistent", "pactc"], axioms=P.r.choice([3, 5, 8]), acts=1,
                                effect_depth=1, depth=1, ax_cond=P.r.random() < 0.9))

ALL = dict(C01=states, C02=values, C03=partials, C05=enumeration, C06=index, C07=formulas, C08=formulas3,
           C09=effects, C10=derived, C11=axioms, C12=partial_actions, C13=calls, C14=text, C15=expansion,
           C18=normal_forms, C19=printing, C20=built, C21=objects, C22=loading, C23=purity, C24=module)
ALL["C16"] = lambda P: planning(P, 6, ("bfs",))
ALL["C17"] = lambda P: planning(P, 6, ("dfs", "astar"))
for _k, _f in SPACES.items():
    ALL[_k + " space"] = _f
