"""Records sessions with the real library as events for spec/Trace.tla."""
import copy
import json
import os
import re

import extra
import gen
from driver import Driver, DriverCrash


def words(q):
    return " ".join(q)


def props(qs):
    return ";".join(words(q) for q in qs)


def callstr(q):
    return q[0] + "(" + ", ".join(q[1:]) + ")"


def parse_call(s):
    """The array form of a call printed canonically; something else otherwise."""
    if s.endswith(")") and "(" in s:
        name, args = s[:-1].split("(", 1)
        q = [name] + (args.split(", ") if args else [])
        if callstr(q) == s and all(x and not set(x) & set("(), \t\n") for x in q):
            return q
    return ["<not canonical>", s]


def q_params(ps):
    return [["?" + n, t] for n, t in ps]


def fix_summary(r):
    """Variables carry their '?' in the specification."""
    for k in ("actions", "predicates", "axioms", "derived"):
        for a in r[k]:
            if "params" in a:
                a["params"] = q_params(a["params"])
            c = parse_call(a["str"])
            a["str"] = callstr([c[0]] + ["?" + x for x in c[1:]])
    return r


def fix_state_str(r):
    s = r["str"]
    ok = s.startswith("{ ") and s.endswith(" }")
    body = s[2:-2] if ok else "?"
    out = []
    # split at ", " outside parentheses
    depth, cur = 0, ""
    i = 0
    while i < len(body):
        ch = body[i]
        if ch == "(":
            depth += 1
        if ch == ")":
            depth -= 1
        if depth == 0 and body[i:i + 2] == ", ":
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += ch
        i += 1
    if cur:
        out.append(cur)
    if out != sorted(out):
        out = ["unsorted"] + out
    r["str"] = [parse_call(x) for x in out]
    return r


def fix_children(r):
    for c in r["l"]:
        c["a"] = parse_call(c["a"])
    return r


def fix_listacts(r):
    return {"a": [parse_call(x) for x in r["a"]], "b": [parse_call(x) for x in r["b"]]}


def fix_plans(r):
    for p in r["plans"]:
        p["acts"] = [parse_call(x) for x in p["acts"]]
    return r


def sexpr(text):
    """One s-expression: nested lists of words, or None."""
    stack = [[]]
    for w in text.replace("(", " ( ").replace(")", " ) ").split():
        if w == "(":
            stack.append([])
        elif w == ")":
            x = stack.pop()
            if not stack:
                return None
            stack[-1].append(x)
        else:
            stack[-1].append(w)
    return stack[0][0] if len(stack) == 1 and len(stack[0]) == 1 else None


def read_dnf(text):
    """A printed normal form: its conjunctions."""
    out, kind = [], {"": "pos", "not ": "neg"}
    lines = text.split("\n")
    if lines[:1] != ["(or"] or lines[-2:] != [")", ""]:
        return [dict(pos=[["<not a form>"]], neg=[])]
    for x in lines[1:-2]:
        if x == "    (and":
            out.append(dict(pos=[], neg=[]))
        elif x != "    )":
            neg = x.startswith("        not ")
            out[-1]["neg" if neg else "pos"].append(parse_call(x[12:] if neg else x[8:]))
    return out


def fix_dnf(r):
    """The printed form, read back."""
    if r.get("text"):
        r["printed"] = read_dnf(r.pop("text"))
    else:
        r.pop("text", None)
        r["printed"] = []
    if r.pop("sets", False):  # what the module returns has no order
        for c in r["conj"] + r["printed"]:
            for k in ("pos", "neg"):
                c[k] = sorted(c[k]) if isinstance(c[k], list) else c[k]
    return r


def fix_dnf2(r):
    return {k: fix_dnf(x) for k, x in r.items()}


def printed_call(s):
    """name(param [address]: type, ...) [address]: the name, the parameters."""
    m = re.fullmatch(r"([^\s()]*)\(([^()]*)\)(?: \[[0-9a-fx]+\])?", s)
    if not m:
        raise ValueError(s)
    return m.group(1), printed_params(m.group(2))


def printed_params(s):
    out = []
    for x in s.split(", ") if s else []:
        n, t = re.fullmatch(r"(\S+) \[[0-9a-fx]+\]: (\S+)", x).groups()
        out.append(dict(n=n, t=t))
    return out


class Printed:
    """A problem as operator<< lists it, read back as data (variables have lost their '?')."""

    def __init__(self, text):
        self.rows = [(len(x) - len(x.lstrip("\t")), x.lstrip("\t")) for x in text.split("\n")]
        self.i = 0

    def at(self, depth):
        return self.i < len(self.rows) and self.rows[self.i][0] == depth and self.rows[self.i][1] != ""

    def row(self, depth):
        d, x = self.rows[self.i]
        if d != depth or x == "":
            raise ValueError((self.i, d, x))
        self.i += 1
        return x

    def head(self, *names):
        for n in names:
            if not self.row(0).strip() == n:
                raise ValueError((self.i, n))

    def value(self, key):
        x = self.row(0)
        if not x.startswith(key + ": "):
            raise ValueError(x)
        return x[len(key) + 2:]

    def many(self, depth, f):
        out = []
        while self.at(depth):
            out.append(f(depth))
        return out

    def const(self, depth):
        n, t = re.fullmatch(r"(\S+) \[[0-9a-fx]+\]: (\S+)", self.row(depth)).groups()
        return dict(n=n, t=t)

    def type(self, depth):
        n, p = re.fullmatch(r"(\S+): (\S+) \[[0-9a-fx]+\]", self.row(depth)).groups()
        return dict(n=n, p=p)

    def pred(self, depth):
        n, ps = printed_call(self.row(depth))
        return dict(n=n, ps=ps)

    def goal(self, depth):
        x = self.row(depth)
        if x in ("and:", "or:"):
            return dict(k=x[:-1], fs=self.many(depth + 1, self.goal))
        if x == "neg:":
            return dict(k="not", f=self.goal(depth + 1))
        m = re.fullmatch(r"(forall|exists)\((.*)\):", x)
        if m:
            return dict(k=m.group(1), ps=printed_params(m.group(2)), f=self.goal(depth + 1))
        n, ps = printed_call(x)
        return dict(k="atom", p=n, a=[p["n"] for p in ps])

    def effect(self, depth):
        e = dict(add=[], fa=[], cd=[])
        e["del"] = []
        last = 0
        while self.at(depth):
            x = self.row(depth)
            m = re.fullmatch(r"\(([+-])\) (.*)", x)
            if m:
                n, ps = printed_call(m.group(2))
                e["add" if m.group(1) == "+" else "del"].append(dict(p=n, a=[p["n"] for p in ps]))
            elif x.startswith("forall("):
                ps = printed_params(re.fullmatch(r"forall\((.*)\):", x).group(1))
                e["fa"].append(dict(ps=ps, e=self.effect(depth + 1)))
            elif x == "when:":
                c = self.goal(depth + 1)
                if self.row(depth) != "then:":
                    raise ValueError("then")
                e["cd"].append(dict(c=c, e=self.effect(depth + 1)))
            else:
                self.i -= 1
                raise ValueError(x)
        return e

    def action(self, depth):
        n, ps = printed_call(self.row(depth))
        if self.row(depth + 1) != "Preconditions:":
            raise ValueError("preconditions")
        pre = self.goal(depth + 2)
        if self.row(depth + 1) != "Effects:":
            raise ValueError("effects")
        return dict(n=n, ps=ps, pre=pre, eff=self.effect(depth + 2))

    def read(self):
        self.head("DOMAIN", "======")
        out = dict(name=self.value("Name"))
        self.value("Requirements")
        self.head("Types:")
        out["types"] = self.many(1, self.type)
        self.head("Constants:")
        out["consts"] = self.many(1, self.const)
        self.head("Predicates:")
        out["preds"] = self.many(1, self.pred)
        self.head("Actions:")
        out["acts"] = self.many(1, self.action)
        if self.rows[self.i] != (0, ""):
            raise ValueError("end of domain")
        self.i += 1
        out["problem"] = []
        if self.at(0):
            self.head("PROBLEM", "=======")
            p = dict(name=self.value("Name"), domain=self.value("Domain"))
            self.value("Requirements")
            self.head("Objects:")
            p["objs"] = self.many(1, self.const)
            self.head("Initial State:")
            p["init"] = self.effect(1)
            self.head("Goal:")
            p["goal"] = self.goal(1)
            out["problem"].append(p)
            self.i += 1
        if [x for x in self.rows[self.i:] if x != (0, "")]:
            raise ValueError("end")
        return out


def read_printed(text):
    try:
        return Printed(text).read()
    except (ValueError, IndexError, AttributeError) as x:
        return dict(unreadable=str(x), text=text)


def typed_list(xs):
    out, names, i = [], [], 0
    while i < len(xs):
        if xs[i] == "-":
            out += [dict(n=n, t=xs[i + 1]) for n in names]
            names = []
            i += 2
        else:
            names.append(xs[i])
            i += 1
    return out + [dict(n=n, t="object") for n in names]


def read_formula(x):
    """A condition as data."""
    try:
        if x == []:
            return dict(k="and", fs=[])
        k = x[0]
        if k in ("and", "or"):
            return dict(k=k, fs=[read_formula(y) for y in x[1:]])
        if k == "not" and len(x) == 2:
            return dict(k="not", f=read_formula(x[1]))
        if k in ("forall", "exists") and len(x) == 3:
            return dict(k=k, ps=typed_list(x[1]), f=read_formula(x[2]))
        if all(isinstance(y, str) for y in x) and isinstance(x, list):
            return dict(k="atom", p=k, a=x[1:])
    except (IndexError, TypeError):
        pass
    return dict(k="unreadable", text=json.dumps(x))


def one_variable(f):
    """The formula with one variable per quantifier, as the problem builder has it."""
    k = f["k"]
    if k in ("and", "or"):
        return dict(k=k, fs=[one_variable(x) for x in f["fs"]])
    if k == "not":
        return dict(k=k, f=one_variable(f["f"]))
    if k == "atom":
        return f
    g = one_variable(f["f"])
    for p in reversed(f["ps"]):
        g = dict(k=k, v=p["n"][1:], t="" if p["t"] == "object" else p["t"], f=g)
    return g


class Recorder:
    """One driver process, a list of events and the domains they refer to."""

    def __init__(self, exe, workdir, timeout=20.0):
        self.work = workdir
        os.makedirs(workdir, exist_ok=True)
        self.drv = Driver(exe, workdir, timeout)
        self.events, self.doms, self.domkey = [], [], {}
        self.where = []       # event number -> number of driver commands before its end
        self.scen = []        # (first event, label)
        self.files = 0
        self.texts = {}
        self.counts = {}
        self.asked = []       # the last questions, to be asked again

    # domain data, shared between identical ones
    def dom(self, D):
        k = json.dumps(D, sort_keys=True)
        if k not in self.domkey:
            self.doms.append(D)
            self.domkey[k] = len(self.doms)
        return self.domkey[k]

    def file(self, text, suffix=".pddl"):
        self.files += 1
        path = os.path.join(self.work, "f%d%s" % (self.files, suffix))
        with open(path, "w") as f:
            f.write(text)
        return path

    def rec(self, op, fields, post=None, **ev):
        if op in QUESTIONS:
            self.asked.append((op, fields, post, ev))
        elif op in ("reset", "use", "load", "addobj", "delobj"):
            del self.asked[:]
        r = self.drv.call([str(x) for x in fields])
        e = ""
        if isinstance(r, dict) and "err" in r:
            e, r = r["err"], ""
        elif post is not None:
            r = post(r)
        self.events.append(dict(op=op, e=e, r=r, **ev))
        self.where.append(len(self.drv.history))
        self.counts[op] = self.counts.get(op, 0) + 1
        return r, e

    def begin(self, label):
        self.scen.append((len(self.events), label))
        self.rec("reset", ["reset"])

    def forget(self):
        """Drops the current scenario's events."""
        first, _ = self.scen.pop()
        del self.events[first:], self.where[first:]

    def write(self):
        t = os.path.join(self.work, "trace.ndjson")
        with open(t, "w") as f:
            for ev in self.events:
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        d = os.path.join(self.work, "doms.json")
        with open(d, "w") as f:
            json.dump(self.doms, f)
        return t, d


QUESTIONS = {"valid", "pvalid", "goal", "pgoal", "consistent", "pconsistent", "validstate", "pvalidstate", "next",
             "validact", "tuple", "plan", "applyall", "actc", "pactc", "derived", "listacts", "listargs", "getinit"}


class Play:
    """Random operations on a recorder; each method is one kind of event."""

    def __init__(self, rec, rng, feats=None):
        self.R, self.r = rec, rng
        self.feats = feats or {}
        self.text = gen.Text(rng)
        self.ids = {}
        self.cur, self.module = None, False
        self.alone = set()    # the domains loaded without a problem
        self.G = None

    # ------------------------------------------------------------- problems
    def fresh(self, **feat):
        f = dict(self.feats)
        f.update(feat)
        g = gen.Gen(self.r, **f)
        g.domain()
        return g

    def load(self, g, id="P", flag=None, domain_only=False, dom=None, alone=0):
        """alone: how often the domain alone is loaded, with all objects as constants."""
        r = self.r
        alone = r.random() < alone
        domain_only = domain_only or alone
        if domain_only:
            g2 = gen.Gen(self.r, **g.f)
            g2.load(dict(copy.deepcopy(g.D), objs=[], init=[], goal=dict(k="and", fs=[]),
                         **(dict(consts=g.D["consts"] + g.D["objs"]) if alone else {})))
            g = g2
        D = g.D
        dom = self.domfile = dom or self.R.file(self.text.domain(D))
        flag = r.random() < 0.5 if flag is None else flag
        if domain_only:
            prob = r.choice("--@")
        else:
            path = self.R.file(self.text.problem(D))
            prob = path if r.random() < 0.5 else "@" + path
        self.D, self.G, self.cur = D, g, id
        res, e = self.R.rec("load", ["load", id, dom, prob, "1" if flag and not domain_only else "0"],
                            fix_summary, id=id, d=self.R.dom(D), flag=bool(flag and not domain_only))
        if not e:
            self.ids[id] = g
            (self.alone.add if domain_only else self.alone.discard)(id)
        return e == ""

    def load_bad(self, g):
        """A domain or problem that can't be read."""
        r = self.r
        dom, prob = self.text.domain(g.D), self.text.problem(g.D)
        gone = os.path.join(self.R.work, "no-such-file.pddl")
        kind = r.choice(["no domain", "no problem", "empty domain", "cut domain", "cut problem", "domain twice",
                         "problem twice", "no domain alone"])
        cut = lambda t: t.strip()[:r.randint(1, len(t.strip()) - 1)].strip()
        d = self.R.file({"empty domain": "", "cut domain": cut(dom), "problem twice": prob}.get(kind, dom))
        p = self.R.file({"cut problem": cut(prob), "domain twice": dom}.get(kind, prob))
        if kind.startswith("no domain"):
            d = gone
        if kind == "no problem":
            p = gone
        elif kind == "no domain alone":
            p = "-"
        elif r.random() < 0.5:
            p = "@" + p
        return self.R.rec("loadbad", ["load", "bad", d, p, r.choice("01")])

    def sibling(self, g):
        """Another problem of the same domain."""
        g2 = gen.Gen(self.r, **g.f)
        D = copy.deepcopy(g.D)
        names = [n for n in gen.OBJ_NAMES if n not in [o["n"] for o in D["consts"]]]
        objs = [dict(n=n, t=self.r.choice(list(g.oft))) for n in self.r.sample(names, self.r.randint(1, max(1, len(D["objs"]) + 1)))]
        if self.r.random() < 0.4:
            # the same names, other types or another order
            objs = [dict(n=o["n"], t=self.r.choice(list(g.oft))) for o in D["objs"]]
            self.r.shuffle(objs)
        D["objs"] = objs
        g2.load(D)
        D["init"] = g2.some_props(0.4)
        D["goal"] = g2.formula([], g2.f["depth"], goal=True)
        return g2

    def again(self, n=6):
        """The last questions once more, in the same words and in any order."""
        last = self.R.asked[-n:]
        for op, fields, post, ev in self.r.sample(last, len(last)):
            self.R.rec(op, fields, post, **ev)

    def changed(self):
        """The initial state and a state become others, often of the same size; then the last questions again."""
        r = self.r
        qs = self.G.some_props(0.4)
        self.s_set("s0", qs)
        self.setinit("s0")
        calls = [self.call(0) for _ in range(r.choice([0, 1, 1, 2]))]
        self.plan(calls)
        self.one("goal", "s0")
        for _ in range(2):
            if r.random() < 0.7:
                out = [q for q in self.G.ground() if q not in qs]
                if qs and out:
                    qs = [q for q in qs if q != qs[0]][:len(qs) - 1] + [r.choice(out)]
                    r.shuffle(qs)
            else:
                qs = self.G.some_props(0.4)
            self.s_set("s0", qs)
            self.setinit("s0")
            self.plan(calls + [self.call(0) for _ in range(r.choice([0, 0, 1]))])
            self.again()

    def use(self, id):
        self.cur, self.G = id, self.ids[id]
        self.D = self.G.D
        self.R.rec("use", ["use", id], id=id)

    # -------------------------------------------------------------- choices
    def sreg(self):
        return self.r.choice(["s0", "s1", "s2"])

    def preg(self):
        return self.r.choice(["p0", "p1", "p2"])

    def prop(self, odd=0.1):
        r = self.r
        if r.random() < odd:
            return self.G.odd_prop()
        g = self.G.ground()
        return r.choice(g) if g else self.G.odd_prop()

    def obj(self):
        return self.r.choice(self.G.objs)["n"] if self.G.objs else "nobody"

    def act(self):
        """A random action and well-typed arguments, or None."""
        acts = list(self.D["acts"])
        self.r.shuffle(acts)
        for a in acts:
            ts = self.G.tuples(a["ps"])
            if ts:
                return a["n"], list(self.r.choice(ts))
        return None

    # ---------------------------------------------------------------- states
    def s_any(self, reg=None, density=0.4, extra=0.0):
        reg = reg or self.sreg()
        qs = self.G.some_props(density, extra)
        self.r.shuffle(qs)
        self.R.rec("s.from", ["s.from", reg, self.r.choice([0, 1]), props(qs)], s=reg, qs=qs)
        return reg

    def s_set(self, reg, qs):
        qs = [list(q) for q in qs]
        self.r.shuffle(qs)
        self.R.rec("s.from", ["s.from", reg, self.r.choice([0, 1]), props(qs)], s=reg, qs=qs)
        return reg

    def p_set(self, reg, pos, neg):
        pos, neg = [list(q) for q in sorted(pos)], [list(q) for q in sorted(neg)]
        self.R.rec("p.from", ["p.from", reg, self.r.choice([0, 1, 2]), props(pos), props(neg)], s=reg, pos=pos, neg=neg)
        return reg

    def conditions(self, a, args):
        """The conditions that evaluating or applying the action meets, with their bindings."""
        act = [x for x in self.D["acts"] if x["n"] == a][0]
        env = {p["n"]: o for p, o in zip(act["ps"], args)}
        return [(act["pre"], env)], self._conds(act["eff"], env)

    def _conds(self, e, env):
        out = []
        for x in e["fa"]:
            for t in self.G.tuples(x["ps"]):
                out += self._conds(x["e"], dict(env, **{p["n"]: o for p, o in zip(x["ps"], t)}))
        for x in e["cd"]:
            out.append((x["c"], env))
            out += self._conds(x["e"], env)
        return out

    def tipped(self, f, env, reg, query):
        """query in a state where one proposition decides f, then with it flipped."""
        t = self.G.tip(f, env)
        if t is None:
            self.s_any(reg)
            query()
            return
        S, a = t
        self.s_set(reg, S)
        query()
        (self.s_erase if a in S else self.s_insert)(reg, list(a))
        query()

    def tipped3(self, f, env, reg, query):
        """query in a partial state near one where one proposition decides f."""
        r = self.r
        t = self.G.tip(f, env)
        A = self.G.atoms(f, env, 60)
        if t is None or not A:
            self.p_any(reg)
            query()
            return
        S, a = t
        A |= {tuple(q) for q in self.G.ground() if r.random() < 0.3}
        drop = set(r.sample(sorted(A - {a}), min(len(A) - 1, r.choice([0, 0, 0, 1, 1, 2]))))
        K = A - drop
        self.p_set(reg, K & S, K - S)
        query()
        (self.p_erase if a in S else self.p_insert)(reg, list(a))
        query()
        if r.random() < 0.5:
            self.p_set(reg, (K & S) - {a}, K - S - {a})
            query()

    def valid_tip(self, reg="s0", three=False):
        a = self.act()
        if a is None:
            return
        (f, env), = self.conditions(*a)[0]
        op = ("pvalid" if three else "valid")
        cmd = self.r.choice([op, op, op + "f"])
        query = lambda: self.R.rec(op, [cmd, reg, a[0], words(a[1])], s=reg, a=a[0], args=a[1])
        (self.tipped3 if three else self.tipped)(f, env, reg, query)

    def goal_tip(self, reg="s0", three=False):
        query = lambda: self.one("pgoal" if three else "goal", reg)
        (self.tipped3 if three else self.tipped)(self.D["goal"], {}, reg, query)

    def act_tip(self, op, reg, three=False):
        """An action applied where a condition of its effects is decided by one proposition."""
        a = self.act()
        if a is None:
            return
        cs = self.conditions(*a)[1] or self.conditions(*a)[0]
        f, env = self.r.choice(cs)
        # the effect changes its own state: a fresh one each time
        flips = [lambda: self.R.rec(op, [op, reg, a[0], words(a[1])], s=reg, a=a[0], args=a[1])]
        if op in ("actc", "pactc"):
            (self.tipped3 if three else self.tipped)(f, env, reg, flips[0])
            return
        t = self.G.tip(f, env)
        if t is None:
            (self.p_any if three else self.s_any)(reg)
            flips[0]()
            return
        S, x = t
        for T in (S, S ^ {x}):
            if three:
                A = self.G.atoms(f, env, 60) | {tuple(q) for q in self.G.ground() if self.r.random() < 0.4}
                self.p_set(reg, A & T, A - T)
            else:
                self.s_set(reg, T)
            flips[0]()

    def p_any(self, reg=None, total=False):
        reg = reg or self.preg()
        r = self.r
        pos, neg = [], []
        d = 1.0 if total else r.choice([0.3, 0.6, 0.9])
        for q in self.G.ground():
            if r.random() < d:
                (pos if r.random() < 0.5 else neg).append(q)
        self.R.rec("p.from", ["p.from", reg, r.choice([0, 1, 2]), props(pos), props(neg)],
                   s=reg, pos=pos, neg=neg)
        return reg

    def simple(self, op, *args, post=None, **ev):
        return self.R.rec(op, [op] + list(args), post, **ev)

    def s_insert(self, reg=None, q=None):
        reg, q = reg or self.sreg(), q or self.prop()
        return self.simple("s.insert", reg, self.r.randint(0, 5), words(q), s=reg, q=q)

    def s_erase(self, reg=None, q=None):
        reg, q = reg or self.sreg(), q or self.prop()
        return self.simple("s.erase", reg, self.r.randint(0, 2), words(q), s=reg, q=q)

    def s_contains(self, reg=None, q=None):
        reg, q = reg or self.sreg(), q or self.prop()
        return self.simple("s.contains", reg, self.r.randint(0, 2), words(q), s=reg, q=q)

    def s_list(self, reg=None):
        reg = reg or self.sreg()
        return self.simple("s.list", reg, s=reg)

    def s_str(self, reg=None):
        reg = reg or self.sreg()
        return self.simple("s.str", reg, post=fix_state_str, s=reg)

    def s_two(self, op, a=None, b=None):
        a, b = a or self.sreg(), b or self.sreg()
        return self.simple(op, a, b, s=a, t=b)

    def s_new(self):
        reg = self.sreg()
        return self.simple("s.new", reg, s=reg)

    def s_reserve(self):
        reg = self.sreg()
        return self.simple("s.reserve", reg, self.r.choice([0, 1, 5, 20]), s=reg)

    def p_insert(self, reg=None, q=None):
        reg, q = reg or self.preg(), q or self.prop()
        return self.simple("p.insert", reg, self.r.randint(0, 3), words(q), s=reg, q=q)

    def p_erase(self, reg=None, q=None):
        reg, q = reg or self.preg(), q or self.prop()
        return self.simple("p.erase", reg, self.r.randint(0, 2), words(q), s=reg, q=q)

    def p_contains(self, reg=None, q=None):
        reg, q = reg or self.preg(), q or self.prop()
        return self.simple("p.contains", reg, self.r.randint(0, 2), words(q), s=reg, q=q)

    def p_list(self, reg=None):
        reg = reg or self.preg()
        return self.simple("p.list", reg, s=reg)

    def p_str(self):
        reg = self.preg()
        return self.simple("p.str", reg, s=reg)

    def p_two(self, op, a=None, b=None):
        a, b = a or self.preg(), b or self.preg()
        return self.simple(op, a, b, s=a, t=b)

    def prop_cmp(self, q=None, q2=None):
        q = q or self.prop(0.3)
        q2 = q2 or (q if self.r.random() < 0.3 else self.near(q))
        return self.simple("prop.cmp", self.r.randint(0, 1), words(q), self.r.randint(0, 1), words(q2), q=q, q2=q2)

    def near(self, q):
        """A proposition similar to q."""
        r = self.r
        q2 = list(q)
        x = r.random()
        if x < 0.4 and len(q) > 1:
            q2[r.randint(1, len(q) - 1)] = self.obj()
        elif x < 0.5 and len(q) > 2:
            q2 = [q[0]] + q[:0:-1]
        elif x < 0.6 and len(q) > 1:
            q2.pop()
        elif x < 0.7:
            q2.append(self.obj())
        elif x < 0.8:
            q2[0] = r.choice(self.D["preds"])["n"]
        else:
            q2 = self.prop(0.3)
        return q2

    def obj_cmp(self):
        a, b = self.obj(), self.obj()
        return self.simple("obj.cmp", a, b, n=a, n2=b)

    # ------------------------------------------------------------------ text
    def prop_str(self):
        q = self.prop(0.2)
        return self.simple("prop.str", self.r.randint(0, 1), words(q), q=q)

    def spell(self, q, pddl=False):
        """Some accepted spelling of a call."""
        r = self.r
        # "\x01" and "\x02" reach the library as a tab and a line break.
        sp = lambda: r.choice(["", "", " ", "  ", "\x01", "\x02", " \x01"])
        if r.random() < 0.3:
            return callstr(q)
        sep = lambda: r.choice([",", ", ", " , ", " ", "  ", ",  ", "\x01", ",\x01", ",\x02", "\x02", " \x01 ,"])
        s = q[0] + "(" + sp()
        for i, a in enumerate(q[1:]):
            s += (sep() if i else "") + a
        return s + sp() + ")"

    def prop_parse(self):
        q = list(self.prop(0.2))
        if self.r.random() < 0.25 and len(q) > 1:
            q[self.r.randint(1, len(q) - 1)] = self.r.choice(["nobody", "o", "a-", "ABC"])
        return self.simple("prop.parse", self.spell(q), q=q)

    def bad_call(self, call):
        r = self.r
        c = list(call)
        x = r.random()
        if x < 0.25:
            c[0] = r.choice(["nothing", c[0] + "x", c[0][:-1] or "g"])
        elif x < 0.5 and len(c) > 1:
            c[r.randint(1, len(c) - 1)] = r.choice(["nobody", "zz1"])
        elif x < 0.65 and len(c) > 1:
            c.pop()
        elif x < 0.8:
            c.append(self.obj())
        elif len(c) > 1:
            c[r.randint(1, len(c) - 1)] = self.obj()
        return c

    def call(self, bad=0.0):
        a = self.act()
        if a is None:
            c = [self.D["acts"][0]["n"]] + [self.obj() for _ in self.D["acts"][0]["ps"]]
        else:
            c = [a[0]] + a[1]
        return self.bad_call(c) if self.r.random() < bad else c

    def parse_action(self, bad=0.4):
        c = self.call(bad)
        return self.simple("parse.action", self.spell(c), call=c)

    def object(self):
        n = self.r.choice([o["n"] for o in self.G.objs] + ["nobody"])
        return self.simple("object", n, n=n)

    def subtype(self):
        n = self.obj()
        if n == "nobody":
            return None
        t = self.r.choice(list(self.G.oft) + ["no-such-type"])
        return self.simple("subtype", n, t, n=n, t=t)

    # ----------------------------------------------------------- enumeration
    def params(self):
        r = self.r
        if r.random() < 0.4:
            i = r.randrange(len(self.D["preds"]))
            return self.R.rec("params", ["params", "pred", self.D["preds"][i]["n"]], kind="pred", i=i + 1)
        i = r.randrange(len(self.D["acts"]))
        return self.R.rec("params", ["params", r.choice(["action", "gen"]), self.D["acts"][i]["n"]], kind="act", i=i + 1)

    def pg_walk(self, n=14):
        """Registers of enumerators that are copied, assigned, moved and dropped."""
        r, regs = self.r, {}
        names = ["g0", "g1", "g2", "g3"]
        rec = lambda op, *a, **k: self.R.rec("pg." + op, ["pg", op] + list(a), **k)
        items = [("act", i) for i in range(len(self.D["acts"]))] + [("pred", i) for i in range(len(self.D["preds"]))]
        decl = lambda g: self.D["acts" if g[0] == "act" else "preds"][g[1]]
        many = lambda g: self.G.tuples(decl(g)["ps"])
        shape = lambda g: g and (len(decl(g)["ps"]), len(many(g)))

        twins = [(a, b) for a in items for b in items if shape(a) == shape(b) and many(a) != many(b)]

        def new(x, g=None):
            g = g or r.choice(items)
            rec("new", x, g[0], decl(g)["n"], r.randint(0, 1), x=x, kind=g[0], i=g[1] + 1)
            regs[x] = g

        def look(x):
            op, g = r.choice(["list", "list", "at", "find", "pddl"]), regs[x]
            if op == "list" or g is None:
                rec("list", x, x=x)
            elif op == "at":
                k = r.randint(0, len(many(g)) + 1)
                rec("at", x, k, x=x, k=k)
            elif op == "find":
                ts = many(g)
                args = list(r.choice(ts)) if ts and r.random() < 0.6 else [self.obj() for _ in decl(g)["ps"]]
                rec("find", x, words(args), x=x, args=args)
            elif op == "pddl":
                rec("pddl", x)

        for _ in range(n):
            op = r.choice(["new", "new", "default", "copy", "move", "assign", "assign", "massign", "drop",
                           "look", "look"])
            x, y = r.choice(names), r.choice(names)
            if twins and r.random() < 0.15:
                # one assigned over another of the same shape
                g, h = r.choice(twins)
                x, y = r.sample(names, 2)
                new(x, g)
                new(y, h)
                op = r.choice(["assign", "assign", "massign"])
            if op == "new":
                new(x)
                continue
            if op == "default":
                rec("default", x, x=x)
                regs[x] = None
                continue
            if x not in regs:
                continue
            if op == "look":
                look(x)
                continue
            if op == "drop":
                rec("drop", x, x=x)
                del regs[x]
                continue
            if op in ("assign", "massign"):
                # onto one of the same shape, if there is one
                ys = [k for k in regs if k != x and regs[k] != regs[x] and shape(regs[k]) == shape(regs[x])]
                y = r.choice(ys) if ys and r.random() < 0.7 else y
                if y not in regs or (op == "massign" and x == y):
                    continue
            rec(op, x, y, x=x, y=y)
            g = regs.pop(x) if op in ("move", "massign") else regs[x]
            regs[y] = g
            if r.random() < 0.7:
                look(y)

    def ix_walk(self, n=30):
        r = self.r
        regs = ["main"]
        for k in range(r.randint(0, 2)):
            self.R.rec("ix.new", ["ix.new", "i%d" % k, r.randint(0, 1)])
            regs.append("i%d" % k)
        g = self.G.ground()
        N = len(g)
        its = {}
        for _ in range(n):
            x = r.choice(regs)
            op = r.choice(["size", "prop", "prop", "prop", "idx", "idx", "idx", "state", "vec", "all", "copy", "pddl"] + ["it"] * 8)
            if op == "size":
                self.R.rec("ix.size", ["ix.size", x])
            elif op == "prop" and N:
                k = r.randrange(N) if r.random() < 0.9 else N + r.choice([0, 1, 7])
                self.R.rec("ix.prop", ["ix.prop", x, k], k=k)
            elif op == "idx":
                q = self.prop(0.15)
                if q not in g and not any(p["n"] == q[0] for p in self.D["preds"]):
                    continue
                self.R.rec("ix.idx", ["ix.idx", x, words(q)], q=q)
            elif op == "state":
                on = [k for k in range(N) if r.random() < 0.4]
                self.R.rec("ix.state", ["ix.state", x, " ".join(map(str, on))], on=on)
            elif op == "vec":
                reg = self.s_any()
                self.R.rec("ix.vec", ["ix.vec", x, reg], s=reg)
            elif op == "all":
                self.R.rec("ix.all", ["ix.all", x])
            elif op == "copy":
                y = "i%d" % r.randint(0, 2)
                self.R.rec("ix.copy", ["ix.copy", x, y])
                # cursors into a replaced index would dangle
                its = {k: v for k, v in its.items() if v[0] != y}
                if y not in regs:
                    regs.append(y)
            elif op == "pddl":
                self.R.rec("ix.pddl", ["ix.pddl", x])
            elif op == "it":
                self._ix_cursor(x, its, N)

    def _ix_cursor(self, x, its, N):
        r = self.r
        names = ["c0", "c1"]
        c = r.choice(names)
        cur = lambda *a: self.R.rec("ix.cur", ["ix.it"] + [str(y) for y in a])
        if c not in its or r.random() < 0.1:
            op = r.choice(["begin", "end"])
            cur(x, op, c)
            its[c] = (x, 0 if op == "begin" else N)
            return
        x, pos = its[c]
        op = r.choice(["pre++", "pre--", "post++", "post--", "+=", "-=", "+", "n+", "-", "*", "->", "[]", "cmp", "*", "*"])
        d = r.choice(names)
        if op in ("*", "->"):
            if 0 <= pos < N:
                self.R.rec("ix.deref", ["ix.it", x, op, c], pos=pos)
            return
        if op == "[]":
            if N:
                k = r.randrange(N)
                self.R.rec("ix.deref", ["ix.it", x, "[]", c, k - pos], pos=k)
            return
        if op == "cmp":
            if d in its and its[d][0] == x:
                self.R.rec("ix.ccmp", ["ix.it", x, "cmp", c, d], pos=pos, pos2=its[d][1])
            return
        target = r.randint(0, N)
        n = {"pre++": 1, "post++": 1, "pre--": -1, "post--": -1}.get(op, target - pos)
        if not 0 <= pos + n <= N:
            return
        if op in ("pre++", "pre--"):
            cur(x, op, c)
            its[c] = (x, pos + n)
        elif op in ("post++", "post--"):
            if c == d:
                return
            cur(x, op, c, d)
            its[d] = (x, pos)
            its[c] = (x, pos + n)
        elif op == "+=":
            cur(x, op, c, n)
            its[c] = (x, pos + n)
        elif op == "-=":
            cur(x, op, c, -n)
            its[c] = (x, pos + n)
        elif op in ("+", "n+"):
            cur(x, op, c, n, d)
            its[d] = (x, pos + n)
        elif op == "-":
            cur(x, op, c, -n, d)
            its[d] = (x, pos + n)

    # -------------------------------------------------------------- semantics
    def on_act(self, op, reg, cmd=None):
        a = self.act()
        if a is None:
            return None
        return self.R.rec(op, [cmd or op, reg, a[0], words(a[1])], s=reg, a=a[0], args=a[1])

    def valid(self, reg=None):
        return self.on_act("valid", reg or self.sreg(), self.r.choice(["valid", "valid", "validf"]))

    def pvalid(self, reg=None):
        return self.on_act("pvalid", reg or self.preg(), self.r.choice(["pvalid", "pvalid", "pvalidf"]))

    def one(self, op, reg):
        if op in ("goal", "pgoal") and self.cur in self.alone:
            return None
        return self.simple(op, reg, s=reg)

    def one_rule(self, reg):
        i = self.r.randrange(len(self.D["drvs"])) if self.D["drvs"] else None
        if i is not None:
            return self.simple("derived1", reg, i, s=reg, i=i + 1)

    def axiom(self, op, reg):
        if not self.D["axs"]:
            return None
        i = self.r.randrange(len(self.D["axs"]))
        return self.simple(op, reg, i, s=reg, i=i + 1)

    def next(self, reg=None, bad=0.1):
        reg, c = reg or self.sreg(), self.call(bad)
        return self.R.rec("next", ["next", reg, self.spell(c)], s=reg, call=c)

    def validact(self, reg=None, bad=0.15):
        reg, c = reg or self.sreg(), self.call(bad)
        return self.R.rec("validact", ["validact", reg, self.spell(c)], s=reg, call=c)

    def listacts(self, reg=None):
        reg = reg or self.sreg()
        return self.simple("listacts", reg, post=fix_listacts, s=reg)

    def listargs(self, reg=None):
        reg = reg or self.sreg()
        a = self.r.choice(self.D["acts"])["n"]
        return self.simple("listargs", reg, a, s=reg, a=a)

    def valid_path(self, reg, n):
        """Follows actually applicable calls from reg (asking the library)."""
        calls, cur = [], reg
        for _ in range(n):
            r, e = self.listacts(cur)
            if e or not r["a"]:
                break
            good = [c for c in r["a"] if c[0] != "<not canonical>"]
            if not good:
                break
            c = self.r.choice(good)
            calls.append(c)
            st, e = self.R.rec("next", ["next", cur, callstr(c)], s=cur, call=c)
            if e:
                break
            self.R.rec("s.from", ["s.from", "sx", 1, props(st)], s="sx", qs=st)
            cur = "sx"
        return calls

    def applyall(self, reg=None, bad=0.1):
        reg = reg or self.sreg()
        cs = [self.call(bad if self.r.random() < 0.5 else 0) for _ in range(self.r.randint(0, 3))]
        return self.R.rec("applyall", ["applyall", reg] + [self.spell(c) for c in cs], s=reg, calls=cs)

    def plan(self, calls=None, bad=0.1):
        if self.cur in self.alone:
            return None
        if calls is None:
            calls = [self.call(bad) for _ in range(self.r.randint(0, 3))]
        return self.R.rec("plan", ["plan"] + [self.spell(c) for c in calls], calls=calls)

    def tuple(self, a=None, call=None, b=None, bad=0.1):
        a, b = a or self.sreg(), b or self.sreg()
        call = call or self.call(bad)
        return self.R.rec("tuple", ["tuple", a, self.spell(call), b], s=a, call=call, t=b)

    # ---------------------------------------------------------------- planner
    def children_walk(self, reg, depth=3, plain=False):
        """Expands nodes along a random path of the planner's own children."""
        path = []
        d0 = 0 if plain else self.r.choice([0, 0, 1, 3])
        for _ in range(depth + 1):
            r, e = self.R.rec("children", ["children", reg, d0] + [callstr(c) for c in path],
                              fix_children, s=reg, path=list(path), d0=d0)
            if e or not r["ok"] or not r["l"]:
                return
            if not plain and self.r.random() < 0.6:
                self.zigzag(reg, d0, path, len(r["l"]))
            c = self.r.choice(r["l"])["a"]
            if c[0] == "<not canonical>":
                return
            path.append(c)

    def zigzag(self, reg, d0, path, n):
        """One cursor over the children, moved back and forth."""
        start = self.r.choice(["begin", "end"])
        pos, moves = (0 if start == "begin" else n), "."
        for _ in range(self.r.randint(1, 2 * n + 2)):
            ways = [c for c, ok in (("+", pos < n), ("-", pos > 0)) if ok]
            c = self.r.choice(ways)
            moves += c
            pos += 1 if c == "+" else -1
        return self.R.rec("zigzag", ["zigzag", reg, d0, start, moves] + [callstr(c) for c in path], fix_children,
                          s=reg, path=list(path), d0=d0, start=start, moves=list(moves))

    def rchildren(self, reg=None):
        reg = reg or self.sreg()
        return self.simple("rchildren", reg, post=fix_children, s=reg)

    def nodecmp(self):
        a, b = self.sreg(), self.sreg()
        return self.simple("nodecmp", a, b, s=a, t=b)

    def search(self, reg=None, ops=("bfs", "dfs", "astar")):
        reg, r = reg or self.sreg(), self.r
        size = max(1, sum(len(self.G.tuples(a["ps"])) for a in self.D["acts"]))
        depth = 0
        while depth < 4 and size ** (depth + 1) <= 400:
            depth += 1
        depth = r.choice([depth, depth, r.randint(0, depth)])
        op = r.choice(ops)
        timed = op == "bfs" and r.random() < 0.15
        args = [reg, depth, 600]
        if op == "bfs":
            args += [r.choice([1, 50, 500, 10 ** 6]) if timed else 0, r.randint(0, 1)]
        return self.simple(op, *args, post=fix_plans, s=reg, depth=depth, timed=timed)

    # ----------------------------------------------------------- normal forms
    def dnf(self, op=None):
        op = op or self.r.choice(["dnf.pre", "dnf.pre", "dnf.post", "dnf.post", "dnf.goal", "dnf.neg", "dnf.cond"])
        if op == "dnf.goal" and self.cur in self.alone:
            return None
        G, D = self.G, self.D
        c, args = [], []
        if op == "dnf.goal":
            fs = [(D["goal"], {}, G.dnf(D["goal"]))]
        else:
            c = self.call(0.05)
            a = [a for a in D["acts"] if a["n"] == c[0]]
            if not a or len(a[0]["ps"]) != len(c) - 1 or any(
                    x not in G.oft[p["t"]] for p, x in zip(a[0]["ps"], c[1:])):
                if op in ("dnf.neg", "dnf.cond"):
                    return None
                return self.R.rec(op, [op, self.spell(c), "0"], call=c, flag=False)
            env = {p["n"]: x for p, x in zip(a[0]["ps"], c[1:])}
            pre = (a[0]["pre"], env, G.dnf(a[0]["pre"]))
            post = (G.eff_form(a[0]["eff"]), env, G.dnf_effect(a[0]["eff"]))
            neg = (pre[0], env, gen._dneg(pre[2]))
            fs = {"dnf.pre": [pre], "dnf.post": [post], "dnf.neg": [neg], "dnf.cond": [pre, post]}[op]
            args = [self.spell(c)]
        if any(x[2][2] > 800 for x in fs) or any(G.atoms(f, env, 9) is None for f, env, _ in fs):
            return None
        if op == "dnf.neg":
            return self.R.rec(op, [op] + args, call=c)
        if op == "dnf.cond":
            flag = str(self.r.randint(0, 1))
            one, two = (self.R.drv.call([k] + args + [flag]) for k in ("dnf.pre", "dnf.post"))
            none = dict(some=False, conj=[])
            return self.R.rec(op, [op] + args + [flag], call=c, e1=one.get("err", ""), e2=two.get("err", ""),
                              first=one if "err" not in one else none, second=two if "err" not in two else none)
        ev = {} if op == "dnf.goal" else dict(call=c)
        r, e = self.R.rec(op, [op] + args + ["0"], fix_dnf, flag=False, **ev)
        if not self.module and self.r.random() < 0.4:
            kind = op[4:]
            self.R.rec("dnf.ax", ["dnf.ax", kind] + args, fix_dnf2, kind=kind, **ev)
        if D["axs"] or self.r.random() < 0.1:
            self.R.rec(op, [op] + args + ["1"], fix_dnf, flag=True, r0=r if not e else dict(some=False, conj=[]), e0=e, **ev)
        return r, e

    # ---------------------------------------------------------------- printing
    def fstr(self, a=None):
        """Prints the goal (a None) or a precondition, reads it back."""
        r, e = self.R.rec("fstr", ["fstr", a or "goal"], lambda t: read_formula(sexpr(t)), a=a or "")
        return self.R.drv.call(["fstr", a or "goal"])

    def reload_printed(self, id):
        """The domain with its formulas as the library prints them."""
        D2 = copy.deepcopy(self.D)
        D2["goal"] = dict(k="raw", text=self.fstr())
        for a in D2["acts"]:
            a["pre"] = dict(k="raw", text=self.fstr(a["n"]))
        dom, prob = self.R.file(self.text.domain(D2)), self.R.file(self.text.problem(D2))
        res, e = self.R.rec("load", ["load", id, dom, prob, "0"], fix_summary, id=id, d=self.R.dom(self.D), flag=False)
        if not e:
            self.ids[id] = self.G
            self.cur = id
        return e == ""

    def load_built(self, id):
        """The domain with its problem written by the Python problem builder."""
        D, r = self.D, self.r
        B = extra.Builders(r)
        B.new(id, D["name"] + "-p", D["name"])
        steps = [[("obj", o) for o in D["objs"]], [("init", q) for q in D["init"]], [("goal", D["goal"])]]
        if r.random() < 0.3:
            steps[1] = [("set", D["init"])]
        while any(steps):
            op, x = r.choice([s for s in steps if s]).pop(0)
            if op == "obj":
                B.obj(id, x["n"], "" if x["t"] == "object" and r.random() < 0.6 else x["t"])
            elif op == "init":
                B.init(id, x)
            elif op == "set":
                B.setinit(id, x)
            else:
                B.goal(id, one_variable(x))
        B.str(id)
        e, text = extra.run_builder(B.cmds)[-1]
        dom, prob = self.R.file(self.text.domain(D)), self.R.file(text if not e else "error " + e)
        res, e = self.R.rec("load", ["load", id, dom, prob, "0"], fix_summary, id=id, d=self.R.dom(D), flag=False)
        if not e:
            self.ids[id] = self.G
            self.cur = id
        return e == ""

    # ---------------------------------------------------------------- problem
    def setinit(self, reg=None):
        reg = reg or self.sreg()
        return self.simple("setinit", reg, s=reg)

    def getinit(self, reg=None):
        reg = reg or self.sreg()
        return self.simple("init", reg, s=reg)

    def summary(self):
        return self.simple("summary", post=fix_summary)

    def print(self):
        """The whole problem, printed."""
        return self.simple("print", post=read_printed, prob=self.cur not in self.alone)

    def backptr(self):
        return self.simple("backptr")

    def change_objs(self, op, objs, *args, consts=None, **ev):
        D2 = gen.with_objs(self.D, objs, consts)
        r = self.R.rec(op, [op] + list(args), fix_summary, d=self.R.dom(D2), **ev)
        self.G.load(D2)
        self.D = D2
        return r

    # -------------------------------------------------------- the Python module
    def pickled(self, id, loaded, flag=True):
        """The current problem pickled and loaded again: as its files have it."""
        r, e = self.R.rec("load", ["pickle", id, self.r.randrange(3)], fix_summary, id=id, d=self.R.dom(loaded.D),
                          flag=flag)
        if not e:  # it may have been loaded without applying its axioms, which fail
            self.G, self.D, self.cur = loaded, loaded.D, id
            self.ids[id] = loaded
        return e == ""

    def pred_str(self):
        q = self.prop(0)
        if any(p["n"] == q[0] for p in self.D["preds"]):
            return self.R.rec("predstr", ["predstr", words(q)], q=q)

    def bad_state(self):
        """A query of a state that names an object nobody declared."""
        q = list(self.prop()) if self.G.objs else []
        if len(q) < 2:
            return
        q[self.r.randrange(1, len(q))] = self.r.choice(["nobody", "o-", "Zz"])
        qs = self.G.some_props(0.3) + [q]
        reg = "sbad"
        self.R.rec("s.from", ["s.from", reg, 0, props(qs)], s=reg, qs=qs)
        c = self.call()
        cmd = self.r.choice([["next", reg, self.spell(c)], ["validact", reg, self.spell(c)], ["listacts", reg],
                             ["listargs", reg, c[0]], ["goal", reg], ["derived", reg], ["consistent", reg],
                             ["validstate", reg], ["setinit", reg], ["applyall", reg], ["tuple", reg, self.spell(c), reg],
                             ["ix.vec", "main", reg], ["bfs", reg, 1, 9, 0, 0]])
        return self.R.rec("badstate", cmd)

    def pgen(self):
        """An enumerator indexed and searched."""
        r = self.r
        kind = r.choice(["action", "pred"])
        xs = self.D["preds" if kind == "pred" else "acts"]
        i = r.randrange(len(xs))
        ps, n = xs[i]["ps"], xs[i]["n"]
        ts = self.G.tuples(ps)
        if r.random() < 0.5:
            k = r.randint(-len(ts) - 1, len(ts))
            return self.R.rec("pg.at", ["pg.at", kind, n, k], i=i + 1, k=k, kind=kind)
        args = list(r.choice(ts)) if ts and r.random() < 0.7 else [self.obj() for _ in ps]
        if args == ["nobody"] * len(args) and args:
            return None
        return self.R.rec("pg.find", ["pg.find", kind, n, words(args)], i=i + 1, args=args, kind=kind)

    def ix_any(self):
        r, g = self.r, self.G.ground()
        N = len(g)
        x = r.randrange(6)
        if x == 0:
            return self.R.rec("ix.size", ["ix.size", "main"])
        if x == 1:
            return self.R.rec("ix.all", ["ix.all", "main"])
        if x == 2:
            k = r.randint(-N, N)
            return self.R.rec("ix.prop", ["ix.prop", "main", k], k=k + N if k < 0 else k)
        if x == 3:
            q = self.prop(0.15)
            if q in g or any(p["n"] == q[0] for p in self.D["preds"]):
                return self.R.rec("ix.idx", ["ix.idx", "main", words(q)], q=q)
            return None
        if x == 4:
            on = [k for k in range(N) if r.random() < 0.4]
            return self.R.rec("ix.state", ["ix.state", "main", " ".join(map(str, on))], on=on)
        s = self.s_any()
        return self.R.rec("ix.vec", ["ix.vec", "main", s], s=s)

    def conj_consistent(self):
        """An axiom checked against a conjunction of a normal form."""
        if not self.D["axs"]:
            return
        out = self.dnf(self.r.choice(["dnf.pre", "dnf.post", "dnf.goal"]))
        if not out or out[1] or not out[0].get("conj"):
            return
        ev = self.R.events[-1]
        if ev["e"] or not ev["r"]["conj"]:
            return
        j = self.r.randrange(len(ev["r"]["conj"]))
        cmd = self.R.drv.history[-1]
        r = self.R.drv.call(["p.conj", "pc", str(j)] + cmd)
        want = ev["r"]["conj"][j]
        assert "err" not in r, r
        self.R.events.append(dict(op="p.from", e="", r="ok" if r == want else "another", s="pc", **want))
        self.R.where.append(len(self.R.drv.history))
        for i in range(len(self.D["axs"])):
            self.R.rec("ax.pcons", ["ax.pcons", "pc", i], s="pc", i=i + 1)

    def addobj(self):
        names = [n for n in gen.OBJ_NAMES + ["extra", "o12"] if n not in [o["n"] for o in self.G.objs]]
        if not names:
            return None
        n, t = self.r.choice(names), self.r.choice(list(self.G.oft))
        return self.change_objs("addobj", self.D["objs"] + [dict(n=n, t=t)], n, t, n=n, t=t)

    def addnone(self):
        """An object for a domain that has no problem."""
        r = self.R.rec("addnone", ["addobj", "extra", self.r.choice(list(self.G.oft))])
        self.summary()
        return r

    def delobj(self):
        x = self.r.random()
        # The module's functions read states as text, which a removed constant that the
        # rules still name would no longer let them.
        pool = self.D["objs"] if x < 0.7 else self.D["consts"] if x < 0.85 and not self.module else []
        n = self.r.choice(pool)["n"] if pool else "nobody"
        return self.change_objs("delobj", [o for o in self.D["objs"] if o["n"] != n], n,
                                consts=[o for o in self.D["consts"] if o["n"] != n], n=n)
