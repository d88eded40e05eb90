"""The conformance driver over the Python module: python3 py_driver.py DIR, where
DIR/symbolic is the package with the built module.  Commands in, answers out, as
harness/driver_main.cc has them."""
import json
import os
import pickle
import sys
import zlib

sys.path.insert(0, sys.argv[1])
import symbolic  # noqa: E402

OUT = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # what a verbose search prints


class Session:
    def __init__(self):
        self.pddls, self.cur, self.st, self.ps = {}, None, {}, {}


S = Session()
HANDLERS = {}


def op(*names):
    def put(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return put


def kind(x):
    names = {"IndexError": "out_of_range", "ValueError": "invalid_argument", "RuntimeError": "runtime_error",
             "MemoryError": "bad_alloc"}
    return names.get(type(x).__name__, type(x).__name__)


def call_string(words):
    w = words.split()
    return w[0] + "(" + ", ".join(w[1:]) + ")"


def strings(field):
    return {call_string(p) for p in field.split(";") if p.split()}


def prop(s):
    """The array form of a canonical call."""
    if s.endswith(")") and "(" in s:
        name, args = s[:-1].split("(", 1)
        q = [name] + (args.split(", ") if args else [])
        if name + "(" + ", ".join(q[1:]) + ")" == s:
            return q
    return ["<not canonical>", s]


def state(x):
    assert isinstance(x, set), x
    return [prop(s) for s in sorted(x)]


def partial(x):
    """A partial state as the module returns it: a pair of sets, or an object with them."""
    pos, neg = (x.pos, x.neg) if hasattr(x, "pos") else x
    return dict(pos=state(pos), neg=state(neg))


def typed(os_):
    return [[o.name, o.type.name] for o in os_]


def named(xs):
    return [dict(name=a.name, params=typed(a.parameters), str=repr(a)) for a in xs]


def first(xs):
    return next(iter(xs))


def one(xs, name):
    return [x for x in xs if x.name == name][0]


def get(reg):
    return S.st.get(reg, set())


def both(f, reg):
    x = S.ps.get(reg, (set(), set()))
    return f(*x) if isinstance(x, tuple) else f(x.pos, x.neg)


def summary(p):
    assert [repr(o) for o in p.objects] == [o.name for o in p.objects]
    assert [repr(o.type) for o in p.objects] == [o.type.name for o in p.objects]
    assert len(p.derived_predicates) == len([repr(d) for d in p.derived_predicates])
    assert repr(p) == "symbolic.Pddl('%s', '%s')" % (p.domain_pddl, p.problem_pddl)
    return dict(short=True, name=p.name, objects=typed(p.objects), constants=typed(p.constants),
                init=state(p.initial_state), actions=named(p.actions), predicates=named(p.predicates),
                axioms=[dict(str=repr(a).split(": ")[0]) for a in p.axioms],
                derived=[dict(str=repr(d)) for d in p.derived_predicates],
                objmap=[dict(t=t, os=[o.name for o in xs]) for t, xs in sorted(p.object_map.items())])


@op("reset")
def _(_f):
    global S
    S = Session()
    return "ok"


@op("load")
def _(f):
    prob = f[3]
    ax = f[4] == "1"
    if prob == "-":
        p, prob = symbolic.Pddl(f[2]), ""
    else:
        if prob.startswith("@"):
            prob = open(prob[1:]).read() if prob != "@" else ""
        way = zlib.crc32((f[2] + prob).encode()) % 3
        if way == 0 and ax:
            p = symbolic.Pddl(f[2], prob)
        elif way == 1:
            p = symbolic.Pddl(problem=prob, apply_axioms=ax, domain=f[2])
        else:
            p = symbolic.Pddl(f[2], prob, ax)
    assert (p.domain_pddl, p.problem_pddl) == (f[2], prob), (p.domain_pddl, p.problem_pddl)
    S.pddls[f[1]] = S.cur = p
    return summary(p)


@op("use")
def _(f):
    S.cur = S.pddls[f[1]]
    return "ok"


@op("pickle")
def _(f):
    """The current problem pickled and loaded again, or copied, as another one."""
    import copy
    p = pickle.loads(pickle.dumps(S.cur)) if f[2] == "0" else copy.copy(S.cur) if f[2] == "1" else copy.deepcopy(S.cur)
    assert p is not S.cur
    assert (p.domain_pddl, p.problem_pddl) == (S.cur.domain_pddl, S.cur.problem_pddl)
    S.pddls[f[1]] = S.cur = p
    return summary(p)


@op("summary")
def _(_f):
    return summary(S.cur)


@op("addobj")
def _(f):
    S.cur.add_object(f[1], f[2])
    return summary(S.cur)


@op("delobj")
def _(f):
    S.cur.remove_object(name=f[1])
    return summary(S.cur)


@op("s.from")
def _(f):
    S.st[f[1]] = strings(f[3])
    return "ok"


@op("p.from")
def _(f):
    S.ps[f[1]] = (strings(f[3]), strings(f[4]))
    return "ok"


@op("init")
def _(f):
    S.st[f[1]] = S.cur.initial_state
    return state(S.cur.initial_state)


@op("setinit")
def _(f):
    S.cur.initial_state = get(f[1])
    return state(S.cur.initial_state)


@op("next")
def _(f):
    s = get(f[1])
    before = set(s)
    r = S.cur.next_state(s, f[2]) if len(f[2]) % 2 else S.cur.next_state(action=f[2], state=s)
    assert s == before
    return state(r)


@op("applyall")
def _(f):
    return state(S.cur.apply_actions(get(f[1]), f[2:]))


@op("validact")
def _(f):
    return S.cur.is_valid_action(get(f[1]), f[2])


@op("tuple")
def _(f):
    r = S.cur.is_valid_tuple(get(f[1]), f[2], get(f[3]))
    return dict(a=r, b=r)


@op("plan")
def _(f):
    return S.cur.is_valid_plan(f[1:] if len(f) % 2 else tuple(f[1:]))


@op("goal")
def _(f):
    r = S.cur.is_goal_satisfied(get(f[1]))
    return dict(a=r, b=r, c=r)


@op("derived")
def _(f):
    return state(S.cur.derived_state(get(f[1])))


@op("consistent")
def _(f):
    return state(S.cur.consistent_state(get(f[1])))


@op("pconsistent")
def _(f):
    return partial(both(S.cur.consistent_state, f[1]))


@op("validstate")
def _(f):
    return S.cur.is_valid_state(get(f[1]))


@op("pvalidstate")
def _(f):
    return both(S.cur.is_valid_state, f[1])


@op("listacts")
def _(f):
    r = S.cur.list_valid_actions(get(f[1]))
    return dict(a=r, b=r)


@op("listargs")
def _(f):
    r = S.cur.list_valid_arguments(get(f[1]), f[2])
    return dict(a=r, b=r, c=r)


@op("parse.action")
def _(f):
    a, args = symbolic.Action.parse(S.cur, f[1])
    names = [o.name for o in args]
    assert [o.type.name for o in args] == [one(S.cur.objects, n).type.name for n in names]
    return dict(name=a.name, args=names, str=a.to_string(names))


@op("predstr")
def _(f):
    w = f[1].split()
    return prop(one(S.cur.predicates, w[0]).to_string(w[1:]))


@op("subtype")
def _(f):
    return one(S.cur.objects, f[1]).type.is_subtype(f[2])


def gen(f, k):
    xs = S.cur.predicates if f[k] == "pred" else S.cur.actions
    return one(xs, f[k + 1]).parameter_generator


@op("params")
def _(f):
    g = gen(f, 1)
    tuples = [[o.name for o in t] for t in g]
    assert tuples == [[o.name for o in t] for t in iter(g)]
    return dict(size=len(g), empty=not g, l=tuples)


@op("pg.at")
def _(f):
    return [o.name for o in gen(f, 1)[int(f[3])]]


@op("pg.find")
def _(f):
    return gen(f, 1).index(f[3].split())


@op("ix.size")
def _(_f):
    return len(S.cur.state_index)


@op("ix.all")
def _(_f):
    ix = S.cur.state_index
    return [prop(ix.get_proposition(k)) for k in range(len(ix))]


@op("ix.prop")
def _(f):
    return prop(S.cur.state_index.get_proposition(int(f[2])))


@op("ix.idx")
def _(f):
    return S.cur.state_index.get_proposition_index(call_string(f[2]))


@op("ix.state")
def _(f):
    on = {int(k) for k in f[2].split()}
    return state(S.cur.state_index.get_state([k in on for k in range(len(S.cur.state_index))]))


@op("ix.vec")
def _(f):
    v = S.cur.state_index.get_indexed_state(get(f[2]))
    return dict(n=len(v), on=[k for k, b in enumerate(v) if b])


def planner(reg):
    return symbolic.Planner(S.cur, get(reg)) if get(reg) != S.cur.initial_state else symbolic.Planner(S.cur)


def text_of(node):
    """A node's printed form has its depth, action and state."""
    t = repr(node)
    for x in [node.action] + list(node.state):
        assert x in t, (x, t)
    return node.action


@op("children")
def _(f):
    assert f[2] == "0"
    pl = planner(f[1])
    root = pl.root
    keep = [symbolic.PlannerNode(root)]
    for a in f[3:]:
        for c in keep[-1]:
            if c.action == a:
                keep.append(symbolic.PlannerNode(c))
                break
        else:
            return dict(ok=False, l=[], root=state(root.state), goal=False, depth=0, node=[])
    n = keep[-1]
    out = [dict(a=text_of(c), s=state(c.state), d=c.depth, g=S.cur.is_goal_satisfied(c.state)) for c in n]
    return dict(ok=True, l=out, root=state(root.state), goal=S.cur.is_goal_satisfied(n.state), depth=n.depth,
                node=state(n.state))


@op("bfs")
def _(f):
    root = planner(f[1]).root
    args = [int(f[2])]
    if f[5] == "1" or f[4] != "0":
        args.append(f[5] == "1")
    if f[4] != "0":
        args.append(int(f[4]) / 1e6)
    search = symbolic.BreadthFirstSearch(root, *args)
    plans, more = [], False
    for plan in search:
        if len(plans) == int(f[3]):
            more = True
            break
        plans.append(dict(acts=[n.action for n in plan[1:]], states=[state(n.state) for n in plan],
                          depths=[n.depth for n in plan]))
    return dict(plans=plans, more=more)


def dnf(d):
    if d is None:
        return dict(some=False, conj=[], text="", sets=True)
    return dict(some=True, conj=[partial(c) for c in d.conjunctions], text=repr(d), sets=True)


def form(f):
    D = symbolic.DisjunctiveFormula
    ax = {} if f[-1] == "0" else dict(apply_axioms=True)
    if f[0] == "dnf.goal":
        return D.normalize_goal(S.cur, **ax)
    return (D.normalize_preconditions if f[0] == "dnf.pre" else D.normalize_postconditions)(S.cur, f[1], **ax)


@op("dnf.goal", "dnf.pre", "dnf.post")
def _(f):
    return dnf(form(f))


@op("dnf.cond")
def _(f):
    r = symbolic.DisjunctiveFormula.normalize_conditions(S.cur, f[1], f[2] == "1")
    if r is None:
        return dict(some=False, pre=[], post=[])
    return dict(some=True, pre=[partial(c) for c in r[0].conjunctions], post=[partial(c) for c in r[1].conjunctions])


@op("p.conj")
def _(f):
    """A conjunction of a normal form as a partial state: p.conj reg k dnf.pre call 0"""
    S.ps[f[1]] = x = form(f[3:]).conjunctions[int(f[2])]
    repr(x)
    return partial(x)


@op("ax.pcons")
def _(f):
    return S.cur.axioms[int(f[2])].is_consistent(S.ps[f[1]])


@op("fstr")
def _(f):
    assert f[1] == "goal"
    return repr(S.cur.goal)


def main():
    for line in sys.stdin:
        f = [x.replace("\x01", "\t").replace("\x02", "\n") for x in line.rstrip("\n").split("\t")]
        try:
            out = HANDLERS[f[0]](f)
        except Exception as x:  # pylint: disable=broad-except
            out = dict(err=kind(x), what=str(x))
            if kind(x) == type(x).__name__:
                import traceback
                traceback.print_exc()
        OUT.write(json.dumps(out) + "\n")
        OUT.flush()


main()
