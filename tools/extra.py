"""Behaviours enumerated by TLC from the specification, replayed into the library."""
import json
import os
import random
import subprocess
import sys

import driver
import tlc

HERE = os.path.dirname(os.path.abspath(__file__))


def behaviours(module, env, work, timeout=800, workers=1, heap="3000m"):
    """Runs TLC on a generating module: (behaviours printed, states, distinct)."""
    e = dict(env)
    rc, out = tlc.run(module, module + ".cfg", os.path.join(work, "tlc"), e, workers=workers, heap=heap, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise tlc.TlcError("TLC failed (%d) on %s:\n%s" % (rc, module, out[-3000:]))
    beh = []
    for line in out.splitlines():
        if line.startswith('"BEH '):
            beh.append(json.loads(json.loads(line)[4:]))
    gen, dist = tlc.counts(out)
    return beh, gen, dist


class Mismatch(Exception):
    def __init__(self, what, expected, commands):
        super().__init__(what)
        self.violation = dict(kind="mismatch", what=what, expected=expected, commands=commands)


def finish(fn):
    """Turns a Mismatch into a result."""
    def wrapped(exe, work, arg, seed, tier):
        try:
            return fn(exe, work, arg, seed, tier)
        except Mismatch as m:
            return dict(violation=m.violation, traces=1, events=1)
    return wrapped


def json_file(work, name, data):
    os.makedirs(work, exist_ok=True)
    p = os.path.join(work, name)
    with open(p, "w") as f:
        json.dump(data, f)
    return p


# ------------------------------------------------------------------- cursors
SHAPES = [[["a", "b"]], [["a", "b", "c"], ["x", "y"]], [["a"], ["b", "c"], ["d", "e"]], [["q"]], [],
          [["a", "b"], ["a"], ["b", "a", "c"]]]


@finish
def cursors(exe, work, arg, seed, tier):
    shapes = [SHAPES[i] for i in arg["shapes"]]
    beh, gen, _ = behaviours("Cursors", {"VERIF_SHAPES": json_file(work, "shapes.json", shapes),
                                         "VERIF_DEPTH": str(arg["depth"])}, work)
    d = driver.Driver(exe, work)
    calls = 0
    for cls in ("comb", "ccomb"):
        for s in range(len(shapes)):
            new = [cls, "new"] + [" ".join(o) for o in shapes[s]]
            d.call(new)
            todo = [([cls, "walk", kind] + b["hist"], b["obs"]) for b in beh if b["shape"] == s + 1
                    for kind in (("rit", "crit") if b["rev"] else ("it", "cit"))]
            calls += len(todo)
            for (cmd, obs), r in zip(todo, d.many([c for c, _ in todo])):
                if r != obs:
                    k = [i for i in range(len(obs)) if i >= len(r) or r[i] != obs[i]][0] if isinstance(r, list) else 0
                    raise Mismatch("cursor after %s: %s" % (cmd[3:k + 4], r[k] if isinstance(r, list) else r),
                                   obs[k], [new, cmd])
    d.close()
    return dict(traces=2 * len(beh), events=calls, states=gen, transitions=gen,
                samples=[dict(b, shape=shapes[b["shape"] - 1]) for b in random.Random(seed).sample(beh, 1)],
                counts={"cursor walk": calls})


def judge(module, evs, cmds, work, before=lambda k: []):
    """Has TLC judge recorded events one by one; commands of the culprit on a mismatch."""
    os.makedirs(work, exist_ok=True)
    t = os.path.join(work, "trace.ndjson")
    with open(t, "w") as f:
        for ev in evs:
            f.write(json.dumps(ev) + "\n")
    m, gen = tlc.check_trace(t, "", os.path.join(work, "tlc2"), module=module)
    if m is not None:
        k = m["line"] - 1
        raise Mismatch("%s gave %s" % (json.dumps({x: y for x, y in m["event"].items() if x != "r"})[:600],
                                       json.dumps(m["event"]["r"])[:1500]), m["expected"], before(k) + [cmds[k]])
    return gen


@finish
def comb_sessions(exe, work, arg, seed, tier):
    """Random generators and long random walks on their cursors."""
    rng = random.Random("%s %s" % (seed, arg["k"]))
    names = "a b c d e f g h i j k l m n".split()
    d = driver.Driver(exe, work)
    evs, cmds, news = [], [], []
    last = {}

    def rec(cls, new, op, fields, **ev):
        cmd = [cls] + fields
        r = d.call(cmd)
        e = r["err"] if isinstance(r, dict) and "err" in r else ""
        evs.append(dict(dict(op=op, e=e, r="" if e else r), **ev))
        cmds.append(cmd)
        news.append([new] if new and new != cmd else [])
        return e

    for _ in range(arg["count"]):
        cls = rng.choice(["comb", "ccomb"])
        opts, size = [], 1
        for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])):
            n = rng.choice([1, 1, 2, 2, 3, 4, 7, 0 if rng.random() < 0.15 else 2])
            if size * max(1, n) > 180:
                n = 1
            size *= max(1, n)
            opts.append(rng.sample(names, n))
        new = [cls, "new"] + [" ".join(o) for o in opts]
        if rec(cls, None, "new", new[1:], opts=opts):
            continue
        if rng.random() < 0.2:
            rec(cls, new, "default", ["default"], opts=opts)
        for op in rng.sample(["size", "all", "call", "rall", "crall"], rng.randint(1, 3)):
            rec(cls, new, op, [op], opts=opts)
        for _ in range(rng.randint(0, 5)):
            k = rng.randint(-size - 2, size + 2)
            rec(cls, new, "at", ["at", str(k)], opts=opts, k=k)
            k = rng.randrange(size)
            rec(cls, new, "idx", ["idx", str(k)], opts=opts, k=k)
            q = [rng.choice(o) if rng.random() < 0.95 else rng.choice(names) for o in opts]
            if rng.random() < 0.1:
                q = q[1:] if rng.random() < 0.5 else q + [rng.choice(names)]
            rec(cls, new, "find", ["find", " ".join(q)], opts=opts, q=q)
        for kind in rng.sample(["it", "cit", "rit", "crit"], 2):
            at = rng.choice(["begin", "end"])
            pos = oth = 0 if at == "begin" else size
            moves, text = [], []
            for _ in range(rng.choice([3, 10, 40])):
                m = rng.choice(["++", "++", "--", "--", "p++", "p--", "swap", "save", "+", "-", "c", "m", "n"])
                n = 0
                if m in ("+", "-", "c", "m", "n"):
                    far = rng.random() < 0.15
                    to = rng.randint(-4, size + 4) if far else rng.randint(0, max(0, size - 1))
                    n = pos - to if m in ("-", "m") else to - pos
                    if m == "-" and n < 0 or m == "+" and n < 0:
                        m, n = ("+", -n) if m == "-" else ("-", -n)
                pos, oth = {"++": (pos + 1, oth), "--": (pos - 1, oth), "p++": (pos + 1, pos), "p--": (pos - 1, pos),
                            "swap": (oth, pos), "save": (pos, pos), "+": (pos + n, oth), "c": (pos + n, oth),
                            "n": (pos + n, oth), "-": (pos - n, oth), "m": (pos - n, oth)}[m]
                moves.append(dict(m=m, n=n))
                text.append(m if m in ("++", "--", "p++", "p--", "swap", "save") else m + str(n))
            rec(cls, new, "walk", ["walk", kind, at] + text, opts=opts, rev=kind in ("rit", "crit"), at=at, moves=moves)
    d.close()
    gen = judge("CursorTrace", evs, cmds, work, lambda k: news[k])
    for ev in evs:
        last["comb " + ev["op"]] = last.get("comb " + ev["op"], 0) + 1
    return dict(traces=arg["count"], events=len(evs), states=gen, transitions=gen, samples=rng.sample(evs, 1), counts=last)


@finish
def hashsets(exe, work, arg, seed, tier):
    starts = arg["starts"]
    env = {"VERIF_STARTS": json_file(work, "starts.json", starts), "VERIF_DEPTH": str(arg["depth"]),
           "VERIF_UNIV": str(arg["univ"]), "VERIF_PRINT": "0" if arg["depth"] == 0 else "1"}
    beh, gen, dist = behaviours("HashBuckets", env, work)
    d = driver.Driver(exe, work)
    todo = []
    for b in beh:
        ops = []
        for h in b["hist"][1:]:
            ops.append({"insert": "+%d", "erase": "-%d", "copy": "c", "swap": "s"}[h["op"]] %
                       ((h["x"],) if h["op"] in ("insert", "erase") else ()))
        start = " ".join(map(str, starts[b["hist"][0]["x"] - 1]))
        for cls in ("hset", "uvec"):
            todo.append(([cls, "walk", str(b["mode"]), start] + ops, b["obs"]))
    calls = len(todo)
    for (cmd, obs), r in zip(todo, d.many([c for c, _ in todo])):
        for k, o in enumerate(obs):
            x = r[k]
            ok = (x["ch"] == o["ch"] and sorted(x["l"]) == o["l"] and x["back"] == x["l"] and x["has"] == o["l"] and
                  x["size"] == len(o["l"]) and x["empty"] == (not o["l"]) and x["eq"] == o["eq"] and
                  x["ne"] == (not o["eq"]) and ((not x["lt"] and not x["gt"]) if o["eq"] else x["lt"] != x["gt"]))
            if not ok:
                raise Mismatch("%s after %s: %s" % (cmd[0], cmd[3:k + 5], x), o, [cmd])
    d.close()
    return dict(traces=len(beh), events=calls, states=dist, transitions=gen,
                samples=random.Random(seed).sample(beh, 1) if beh else [], counts={"set walk": calls})


@finish
def set_sessions(exe, work, arg, seed, tier):
    """Long random histories of two sets of up to 60 elements."""
    rng = random.Random("%s sets %s" % (seed, arg["k"]))
    d = driver.Driver(exe, work)
    evs, cmds = [], []
    for i in range(arg["count"]):
        univ = rng.sample(range(64), rng.choice([6, 20, 40, 60]))
        mode = rng.randrange(4)
        start = rng.sample(univ, min(len(univ), rng.choice([0, 1, 2, 3, 4, 20, 60])))
        ops, grow = [], 0.5
        n = rng.choice([20, 80, 200])
        for k in range(n):
            if k % 25 == 0:
                grow = rng.choice([0.1, 0.3, 0.6, 0.9])
            x = rng.random()
            if x < 0.05:
                ops.append(("copy", "c", 0))
            elif x < 0.1:
                ops.append(("swap", "s", 0))
            else:
                e = rng.choice(univ)
                ops.append(("insert", "+%d" % e, e) if rng.random() < grow else ("erase", "-%d" % e, e))
        for cls in ("hset", "uvec"):
            cmd = [cls, "walk", str(mode), " ".join(map(str, start))] + [o[1] for o in ops]
            r = d.call(cmd)
            e = r["err"] if isinstance(r, dict) else ""
            evs.append(dict(e=e, r=[] if e else r, start=start, ops=[dict(op=o[0], x=o[2]) for o in ops]))
            cmds.append(cmd)
    d.close()
    gen = judge("SetTrace", evs, cmds, work)
    return dict(traces=len(evs), events=sum(len(ev["ops"]) for ev in evs), states=gen, transitions=gen,
                samples=[dict(start=evs[0]["start"], ops=evs[0]["ops"][:20])], counts={"set history": len(evs)})


# ------------------------------------------------------------------ searches
def _tree_cmd(b, timeout=0, verbose=0):
    ch = ";".join("%d:%s" % (i + 1, " ".join(map(str, c))) for i, c in enumerate(b["ch"]) if c)
    w = ";".join("%d:%d" % (i + 1, x) for i, x in enumerate(b["w"]))
    return ["tree", b["algo"], str(b["d"]), "5000", "1", ch, " ".join(map(str, b["goals"])), w, str(timeout), str(verbose)]


def _search_events(exe, work, insts, rng):
    """Runs the instances and has TLC judge the results."""
    d = driver.Driver(exe, work)
    cmds, evs = [], []
    for b in insts:
        timed = b["algo"] == "bfs" and rng.random() < 0.1
        cmds.append(_tree_cmd(b, rng.choice([1, 20, 1000000]) if timed else 0, int(rng.random() < 0.3)))
        evs.append(dict(op="search", timed=timed, **b))
    for ev, r in zip(evs, d.many(cmds, 4)):
        ev["e"] = r["err"] if "err" in r else ""
        ev["r"] = r
    d.close()
    return len(evs), judge("SearchTrace", evs, cmds, work)


@finish
def search_trees(exe, work, arg, seed, tier):
    """All small trees: the specification's machine, then the real searches."""
    env = {"VERIF_N": str(arg["n"]), "VERIF_D": str(arg["d"]), "VERIF_EXACT": str(arg.get("exact", 0)),
           "VERIF_W": str(arg.get("w", 0))}
    beh, gen, dist = behaviours("Search", env, work)
    beh = [b for b in beh if b["algo"] in arg["algos"]]
    rng = random.Random(seed)
    if len(beh) > arg.get("replay", 10 ** 9):
        beh = rng.sample(beh, arg["replay"])
    n, g2 = _search_events(exe, work, beh, rng)
    return dict(traces=n, events=n, states=dist + g2, transitions=gen + g2,
                samples=rng.sample(beh, min(1, len(beh))), counts={"search " + a: sum(b["algo"] == a for b in beh)
                                                                   for a in arg["algos"]})


@finish
def search_graphs(exe, work, arg, seed, tier):
    """Random larger graphs (with cycles and shared nodes)."""
    rng = random.Random("%s %s" % (seed, arg["k"]))
    insts = [b for a in arg["algos"] for b in _long_searches(a, rng) for _ in range(2)]
    for _ in range(arg["count"]):
        n = rng.randint(3, 9)
        ch = [rng.sample(range(1, n + 1), rng.choice([0, 1, 1, 2, 2, 3]) if n > 3 else rng.randint(0, 2))
              for _ in range(n)]
        if not ch[0]:
            ch[0] = [rng.randint(1, n)]
        goals = [x for x in range(1, n + 1) if rng.random() < rng.choice([0.1, 0.3])]
        w = [rng.choice([0, 1, 1, 2, 5, -1]) for _ in range(n)]
        algo = rng.choice(arg["algos"])
        # the best-first simulation in TLC is for small searches
        d = rng.randint(0, 5 if algo != "astar" else 4)
        b = dict(ch=ch, goals=goals, w=w, d=d, algo=algo)
        if _count_paths(b, {"bfs": 150, "dfs": 60, "astar": 26}[algo]) is None:
            b["d"] = 2
        insts.append(b)
    n, g2 = _search_events(exe, work, insts, rng)
    return dict(traces=n, events=n, states=g2, transitions=g2, samples=insts[:1],
                counts={"search " + a: sum(b["algo"] == a for b in insts) for a in arg["algos"]})


def _long_searches(algo, rng):
    """One search of many pending paths, one of long paths."""
    small = algo == "astar"
    # a root with many children, some of which have children of their own
    n = rng.randint(30, 45) if small else rng.randint(70, 180)
    ch, order = [[] for _ in range(n)], rng.sample(range(2, n + 1), n - 1)
    inner = order[:rng.randint(1, 4)]
    for x in order[len(inner):]:
        ch[0].append(x)
        if rng.random() < 0.1 and not small:
            ch[x - 1] = [rng.choice(inner)]
    ch[0][rng.randrange(len(ch[0])):0] = inner[:1]
    goals = rng.sample(range(2, n + 1), rng.choice([1, 2, 5, 12]))
    if rng.random() < 0.6:
        goals = sorted(set(goals + rng.sample(inner, 1)))
    yield dict(ch=ch, goals=goals, w=rng.sample(range(n), n), d=rng.choice([1, 2, 2, 3]), algo=algo)
    # children of children
    a, k = (rng.randint(4, 6), 5) if small else (rng.randint(9, 14), rng.randint(9, 14))
    mid, low = rng.sample(range(2, a + 2), a), list(range(a + 2, a + 2 + k))
    ch = [mid] + [[]] * (a + k)
    for x in mid:
        ch[x - 1] = rng.sample(low, rng.randint(k - 2, k))
    goals = rng.sample(low, rng.choice([1, 2, 3])) + rng.sample(mid, rng.choice([0, 1]))
    yield dict(ch=ch, goals=goals, w=rng.sample(range(a + k + 1), a + k + 1), d=rng.choice([2, 2, 3]), algo=algo)
    # a long path with short side tracks
    n = rng.randint(12, 20) if small else rng.randint(20, 60)
    ch = [[i + 2] for i in range(n - 1)] + [[]]
    goals = [n]
    for _ in range(rng.randint(0, 6)):
        ch.append([])
        ch[rng.randrange(n - 1)].insert(rng.choice([0, 9]), len(ch))
        if rng.random() < 0.5:
            goals.append(len(ch))
    yield dict(ch=ch, goals=goals, w=rng.sample(range(len(ch)), len(ch)),
               d=rng.choice([n - 2, n - 1, n - 1, n, n + 20]), algo=algo)


def _count_paths(b, cap):
    level, total = [1], 1
    for _ in range(b["d"]):
        level = [c for x in level if x not in b["goals"] for c in b["ch"][x - 1]]
        total += len(level)
        if total > cap:
            return None
    return total


# ------------------------------------------------------------------- builder
def run_builder(cmds, timeout=120):
    """Results [error, value] of builder calls, run in a process of their own."""
    p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "builder_run.py")], input=json.dumps(cmds),
                       capture_output=True, text=True, timeout=timeout, check=False)
    if p.returncode:
        return [["crash", p.stderr[-300:]]] * len(cmds)
    return json.loads(p.stdout)


def tokens(text):
    return text.replace("(", " ( ").replace(")", " ) ").split()


def plain_formula(f):
    """PDDL text of a builder expression."""
    k = f["k"]
    sub = [plain_formula(x) for x in ([f[y] for y in ("c", "f") if y in f] + f.get("fs", []))]
    if k == "atom":
        return "(" + " ".join([f["p"]] + f["a"]) + ")"
    if k in ("and", "or", "not", "when"):
        return "(" + " ".join([k] + sub) + ")"
    return "(%s (?%s%s) %s)" % (k, f["v"], " - " + f["t"] if f["t"] else "", sub[0])


def as_built(f, rng, raw=0.15):
    """How the expression is put together: some parts as text."""
    if rng.random() < raw:
        return dict(k="raw", text=plain_formula(f))
    f = dict(f)
    if "fs" in f:
        f["fs"] = [as_built(x, rng, raw) for x in f["fs"]]
    for y in ("c", "f"):
        if y in f:
            f[y] = as_built(f[y], rng, raw)
    return f


def prop_text(q, how, rng=None):
    if how == "pddl":
        return "(" + " ".join(q) + ")"
    sp = (lambda: rng.choice(["", "", " "])) if rng else lambda: ""
    return q[0] + "(" + sp() + (sp() + "," + (sp() or " ")).join(q[1:]) + sp() + ")"


class Builders:
    """Builder calls as commands for the real thing and events for the specification."""

    def __init__(self, rng):
        self.r, self.cmds, self.evs = rng, [], []

    def do(self, op, cmd, **ev):
        self.cmds.append(dict(cmd, op=op))
        self.evs.append(dict(ev, op=op))

    def new(self, id, n, d):
        self.do("new", dict(id=id, n=n, d=d), id=id, n=n, d=d)

    def obj(self, id, n, t):
        self.do("obj", dict(id=id, n=n, t=t), id=id, n=n, t=t)

    def init(self, id, q, how=None):
        how = how or self.r.choice(["call", "pddl"])
        self.do("init", dict(id=id, text=prop_text(q, how, self.r)), id=id, q=q)

    def setinit(self, id, qs):
        self.do("setinit", dict(id=id, kind=self.r.choice(["set", "list"]),
                                text=[prop_text(q, self.r.choice(["call", "pddl"]), self.r) for q in qs]), id=id, qs=qs)

    def goal(self, id, g):
        self.do("goal", dict(id=id, x=as_built(g, self.r)), id=id, g=g)

    def str(self, id):
        self.do("str", dict(id=id), id=id)

    def expr(self, g):
        self.do("expr", dict(x=as_built(g, self.r)), g=g)

    def parse(self, q):
        text, bad = prop_text(q, "call", self.r), False
        if self.r.random() < 0.15:
            text, bad = self.r.choice([q[0], "", " ".join(q), q[0] + ")", ",".join(q) + ")"]), True
        self.do("parse", dict(text=text), q=q, bad=bad)

    def atom(self, q):
        self.do("atom", dict(q=q), q=q)

    def judge(self, work):
        for ev, c, (e, r) in zip(self.evs, self.cmds, run_builder(self.cmds)):
            ev["e"] = e
            ev["r"] = tokens(r) if ev["op"] in ("str", "expr", "atom") else r

        def before(k):
            x = self.cmds[k].get("id")
            first = max([i for i in range(k) if self.cmds[i]["op"] == "new" and self.cmds[i]["id"] == x] + [0])
            return [c for c in self.cmds[first:k] if x is not None and c.get("id") == x]
        return judge("BuilderTrace", self.evs, self.cmds, work, before)


@finish
def builder_model(exe, work, arg, seed, tier):
    """Every short history of builder calls and every small goal expression."""
    beh, gen, _ = behaviours("Builder", {"VERIF_DEPTH": str(arg["depth"])}, work)
    B = Builders(random.Random(seed))
    for i, h in enumerate(beh):
        if "expr" in h:
            B.expr(h["expr"])
            continue
        B.new("b", "pb", "dom")
        for c in h["calls"]:
            if c["op"] == "obj":
                B.obj("b", c["n"], c["t"])
            elif c["op"] == "init":
                B.init("b", c["q"], c["how"])
            elif c["op"] == "setinit":
                B.setinit("b", c["qs"])
            else:
                B.goal("b", c["g"])
        B.str("b")
    g2 = B.judge(work)
    return dict(traces=len(beh), events=len(B.evs), states=gen + g2, transitions=gen + g2,
                samples=B.r.sample(beh, 1), counts={"builder history": len(beh)})


@finish
def builders(exe, work, arg, seed, tier):
    """Long random histories of several builders side by side."""
    rng = random.Random("%s %s" % (seed, arg["k"]))
    B = Builders(rng)
    names = ["a", "b", "box", "o_1", "on-top", "x2", "Arm"]
    types = ["", "", "t", "block", "movable-2"]

    def atom(env=()):
        return dict(k="atom", p=rng.choice(["p", "q", "on-top", "="]),
                    a=[rng.choice(names + ["?" + v for v in env]) for _ in range(rng.choice([0, 1, 2, 2, 3]))])

    def expr(d, env=()):
        if d <= 0 or rng.random() < 0.1:
            return atom(env)
        k = rng.choice(["and", "or", "not", "forall", "exists", "when"])
        if k in ("and", "or"):
            return dict(k=k, fs=[expr(d - 1, env) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))])
        if k == "not":
            return dict(k=k, f=expr(d - 1, env))
        if k == "when":
            return dict(k=k, c=expr(d - 1, env), f=expr(d - 1, env))
        v = rng.choice(["x", "y", "o-1"])
        return dict(k=k, v=v, t=rng.choice(types), f=expr(d - 1, env + (v,)))

    prop = lambda: [rng.choice(["on", "free", "at-x", "p_2"])] + [rng.choice(names) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    ids = []
    for _ in range(arg["count"]):
        op = rng.choice(["new", "obj", "obj", "obj", "init", "init", "init", "setinit", "goal", "str", "str", "expr",
                         "parse", "parse", "atom"]) if ids else "new"
        if op == "new":
            i = rng.choice(["b0", "b1", "b2"])
            ids = sorted(set(ids) | {i})
            B.new(i, rng.choice(["pb", "problem", "p-1"]), rng.choice(["dom", "define", "d_2"]))
        elif op in ("expr", "parse", "atom"):
            {"expr": lambda: B.expr(expr(rng.randint(0, 5))), "parse": lambda: B.parse(prop()),
             "atom": lambda: B.atom(prop())}[op]()
        else:
            i = rng.choice(ids)
            {"obj": lambda: B.obj(i, rng.choice(names), rng.choice(types)), "init": lambda: B.init(i, prop()),
             "setinit": lambda: B.setinit(i, [prop() for _ in range(rng.randint(0, 4))]),
             "goal": lambda: B.goal(i, expr(rng.randint(0, 5))), "str": lambda: B.str(i)}[op]()
    for i in ids:
        B.str(i)
    g2 = B.judge(work)
    return dict(traces=1, events=len(B.evs), states=g2, transitions=g2, samples=B.cmds[:5],
                counts={"builder call": len(B.evs)})


# ------------------------------------------------------- the planning problem
DOMAINS = os.path.join(os.path.dirname(HERE), "domains")
REPO = os.environ.get("VERIF_REPO", "/repo")


def written(name):
    """A hand-written domain: (domain text, problem text, data)."""
    import pddl_read
    if name == "lgp":
        paths = [os.path.join(REPO, "resources", x) for x in ("domain.pddl", "problem.pddl")]
    else:
        paths = [os.path.join(DOMAINS, name + x) for x in (".pddl", "-problem.pddl")]
    d, p = (open(x).read() for x in paths)
    return d, p, pddl_read.read(d, p)


@finish
def machine(exe, work, arg, seed, tier):
    """Every reachable state of some problems, as the specification has it, asked of the library."""
    import gen
    texts = []
    if "names" in arg:
        texts = [written(n) for n in arg["names"]]
    else:
        rng = random.Random("%s machine %s" % (seed, arg["k"]))
        for _ in range(arg["count"]):
            g = gen.Gen(rng, **dict(dict(types=2, max_objs=2, preds=3, acts=2, act_params=1, depth=2, effect_depth=2,
                                         max_ground=6, contradict=False, wide=0), **arg.get("feat", {})))
            D = g.domain()
            t = gen.Text(rng)
            texts.append((t.domain(D), t.problem(D), D))
    beh, gen_, dist = behaviours("Machine", {"VERIF_DOMS": json_file(work, "doms.json", [x[2] for x in texts]),
                                             "VERIF_ALL": "1" if arg.get("everywhere") else "0",
                                             "VERIF_DEPTH": str(arg.get("depth", 99))}, work)
    d = driver.Driver(exe, work)
    asks = arg["asks"]
    calls = 0
    key = lambda qs: sorted(map(tuple, qs))
    loads = []
    for i, (dom, prob, _) in enumerate(texts):
        fs = []
        for k, x in enumerate((dom, prob)):
            fs.append(os.path.join(work, "m%d-%d.pddl" % (i, k)))
            with open(fs[-1], "w") as f:
                f.write(x)
        loads.append(["load", "M%d" % i, fs[0], fs[1], "0"])
        r = d.call(loads[-1])
        if "err" in r:
            raise Mismatch("loading fails: " + r["err"], "no error", [loads[-1]])
    for b in beh:
        i = b["d"] - 1
        setup = [loads[i], ["use", "M%d" % i],
                 ["s.from", "s0", "1", ";".join(" ".join(q) for q in b["s"])]]
        todo = []
        if "valid" in asks:
            names = ["%s(%s)" % (c[0], ", ".join(c[1:])) for c in b["valid"]]
            todo.append((["listacts", "s0"], lambda r, w=names: r.get("a") == w and r.get("b") == w, names))
        if "next" in asks:
            for x in b["next"]:
                c = "%s(%s)" % (x["call"][0], ", ".join(x["call"][1:]))
                v = x["call"] in b["valid"]
                todo.append((["next", "s0", c], lambda r, x=x: (r == {"err": x["e"]}) if x["e"] else
                             isinstance(r, list) and key(r) == key(x["s"]), x["e"] or x["s"]))
                if "valid" in asks:
                    todo.append((["validact", "s0", c], lambda r, v=v: r is v, v))
        if "goal" in asks:
            todo.append((["goal", "s0"], lambda r: r == dict(a=b["goal"], b=b["goal"], c=b["goal"]), b["goal"]))
        if "axioms" in asks:
            todo.append((["validstate", "s0"], lambda r: r is b["ok"], b["ok"]))
            todo.append((["consistent", "s0"], lambda r: (r == {"err": b["close"]["e"]}) if b["close"]["e"] else
                         isinstance(r, list) and key(r) == key(b["close"]["s"]), b["close"]))
        if "derived" in asks:
            todo.append((["derived", "s0"], lambda r: isinstance(r, list) and key(r) == key(b["derive"]), b["derive"]))
        for c in setup[1:]:
            d.call(c)
        for (cmd, ok, exp), r in zip(todo, d.many([t[0] for t in todo])):
            calls += 1
            good = ok(r)
            if not good:
                raise Mismatch("%s in %s gave %s" % (cmd, json.dumps(b["s"]), json.dumps(r)[:1500]), exp, setup + [cmd])
    d.close()
    b = random.Random(seed).choice(beh)
    return dict(traces=len(beh), events=calls, states=gen_, transitions=gen_,
                samples=[dict(state=b["s"], valid=b["valid"], goal=b["goal"])], counts={"machine state": len(beh)})


# ------------------------------------------------------ the command-line planner
def read_plans(text):
    """What apps/pddl.cc prints: its plans and their number."""
    import re
    import session
    text = re.sub("\x1b\\[[0-9;]*m", "", text)
    start = text.find("Planning:")
    plans, cur = [], None
    found = None
    for line in text[max(0, start):].split("\n"):
        line = line.strip()
        if re.fullmatch(r"[-+0-9.e]+s", line):
            cur = dict(acts=[], states=[], depths=[])
            plans.append(cur)
            continue
        if not line:
            cur = None
            continue
        m = re.match(r"Found (\d+) plans? in", line)
        if m:
            found = int(m.group(1))
            continue
        m = re.fullmatch(r"(-*)\s*(.*?)\s*-> (\{.*\})", line)
        if cur is None or not m:
            continue
        if cur["depths"]:
            cur["acts"].append(session.parse_call(m.group(2)))
        cur["depths"].append(len(m.group(1)))
        cur["states"].append(session.fix_state_str(dict(str=m.group(3)))["str"])
    return dict(plans=plans, found=-1 if found is None else found)


def run_cli(exe, args, work):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work, timeout=60,
                           stdin=subprocess.DEVNULL, preexec_fn=driver.limits,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1"))
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "hang", "", ""


@finish
def command_line(exe, work, arg, seed, tier):
    """Runs the planning application on random problems with random options."""
    import build
    import gen
    import session
    cli = build.build(main="pddl")
    rng = random.Random("%s cli %s" % (seed, arg["k"]))
    R = session.Recorder(exe, work)
    text = gen.Text(rng)
    cmds = []
    for i in range(arg["count"]):
        g = gen.Gen(rng, axioms=rng.choice([0, 0, 2]), derived=rng.choice([0, 0, 2]), depth=2, effect_depth=1, max_objs=3,
                    acts=rng.choice([1, 2, 3, 4]), act_params=rng.choice([1, 2]), max_tuples=5, contradict=False,
                    plan_goal=True, typepred=False)
        D = g.domain()
        dom, prob = text.domain(D), text.problem(D)
        size = max(1, sum(len(g.tuples(a["ps"])) for a in D["acts"]))
        depth = 0
        while depth < 6 and size ** (depth + 1) <= 400:
            depth += 1
        opts, want = [], 5
        for _ in range(rng.choice([0, 1, 1, 1, 2])) if size ** 5 <= 400 else [0] * rng.choice([1, 1, 2]):
            want = rng.randint(0, depth)
            opts.append(["--depth", str(want)])
        if rng.random() < 0.3:
            opts.insert(rng.randint(0, len(opts)), ["--verbose"])
        opts = [x for o in opts for x in o]
        f1, f2 = R.file(dom), R.file(prob)
        bad = rng.random() < 0.25
        if not bad:
            args = [f1, f2 if rng.random() < 0.8 else prob] + opts
            ev = dict(op="cli", d=R.dom(D), depth=want)
        else:
            kind = rng.choice(["few", "option", "no value", "files", "text depth"])
            args, usage = {
                "few": ([f1][:rng.randint(0, 1)], True), "option": ([f1, f2] + opts + [rng.choice(["--deep", "-v", "3"])], True),
                "no value": ([f1, f2, "--verbose", "--depth"], True),
                "files": ([f1 + "x", f2] if rng.random() < 0.5 else [f1, f2 + "x"], False),
                "text depth": ([f1, f2, "--depth", "deep"], False)}[kind]
            ev = dict(op="clibad", usage=usage)
        rc, out, err = run_cli(cli, args, work)
        if rc == "hang":
            rc, out, err = run_cli(cli, args, work)
        if "Sanitizer" in err or rc == "hang":
            raise Mismatch("the planner %s\n%s" % ("hangs" if rc == "hang" else "crashes", err[:2500]), "plans", [args])
        ev["e"] = "" if rc == 0 else "failed"
        ev["r"] = dict(usage="Usage" in out + err, **read_plans(out))
        R.events.append(ev)
        cmds.append(args)
    trace, doms = R.write()
    m, states = tlc.check_trace(trace, doms, work)
    if m is not None:
        raise Mismatch("%s %s" % (cli, " ".join(cmds[m["line"] - 1])) + ": " + json.dumps(m["event"]["r"])[:2000],
                       m["expected"], [cmds[m["line"] - 1]])
    return dict(traces=len(cmds), events=len(cmds), states=states, transitions=states,
                samples=rng.sample(R.events, 1), counts={"command line": len(cmds)})
