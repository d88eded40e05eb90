"""What each check runs."""
import extra
import scen

SCENARIOS = scen.ALL
EXTRA = dict(cursors=extra.cursors, comb_sessions=extra.comb_sessions, hashsets=extra.hashsets,
             search_trees=extra.search_trees, search_graphs=extra.search_graphs, builder_model=extra.builder_model,
             builders=extra.builders, machine=extra.machine, set_sessions=extra.set_sessions,
             command_line=extra.command_line)

ASSUMPTIONS = [
    "VAL's PDDL parser is not available here; the library is linked against a stand-in (harness/val) that implements the "
    "part of VAL's syntax tree and type checker the library uses.",
    "TLC and the specification's JSON reader are trusted.",
]

# scenarios per shard (quick, thorough); eight shards quick, more when thorough
SIZES = {
    "C01": (28, 60), "C02": (36, 60), "C03": (56, 60), "C05": (72, 80), "C06": (18, 60), "C07": (36, 60),
    "C08": (48, 60), "C09": (40, 60), "C10": (48, 60), "C11": (56, 80), "C12": (48, 60), "C13": (40, 60),
    "C14": (64, 80), "C15": (32, 40), "C16": (60, 80), "C17": (60, 80), "C18": (80, 80), "C19": (50, 80),
    "C20": (24, 40), "C21": (36, 50), "C22": (40, 60), "C23": (20, 40), "C24": (60, 100),
}
SHARDS = {"quick": 8, "thorough": 48}


def variants(cid):
    return {"C24": ["python"], "C15": ["default", "alt"]}.get(cid, ["default"])


def jobs(cid, tier, seed):
    out = []
    if cid in SIZES:
        n = SIZES[cid][0 if tier == "quick" else 1]
        for s in range(SHARDS[tier]):
            var = variants(cid)
            out.append(dict(kind="scen", name="%s-%d" % (cid, s), fn=cid, count=n, variant=var[s % 4 == 3 and len(var) > 1]))
            if cid in scen.SPACES:
                out.append(dict(kind="scen", name="%s-space-%d" % (cid, s), fn=cid + " space",
                                count=10 if tier == "quick" else 40))
    return more(cid, tier == "thorough") + out


ALL_DOMAINS = ["blocks", "briefcase", "rooms", "lgp"]
MACHINES = [
    ("C07", ["valid", "goal"], ["briefcase", "lgp"], {}),
    ("C09", ["next"], ["briefcase", "lgp"], {}),
    ("C10", ["next", "derived"], ["blocks"], dict(derived=2)),
    ("C11", ["next", "axioms"], ["rooms"], dict(axioms=3)),
    ("C13", ["valid", "next", "goal"], ALL_DOMAINS, dict(axioms=1, derived=1)),
]


def more(cid, deep):
    """Behaviours enumerated from the specification; other modules' traces."""
    out = []

    def add(fn, name="", **arg):
        out.append(dict(kind="extra", name=(fn + " " + name).strip(), fn=fn, arg=arg))

    if cid == "C04":
        for i in range(6):
            add("cursors", "shape %d" % i, shapes=[i], depth=4 if deep else 3)
        for k in range(24 if deep else 6):
            add("comb_sessions", str(k), k=k, count=400 if deep else 120)
    if cid in ("C01", "C02"):
        add("hashsets", "model", starts=[[]], depth=0, univ=5 if deep else 4)
        starts = [[], [1], [1, 2], [1, 2, 3], [2, 4], [1, 3, 5], [1, 2, 3, 4], [3, 6, 9]]
        for k, s in enumerate(starts if deep else starts[:4]):
            add("hashsets", str(k), starts=[s], depth=4 if deep else 3, univ=6 if not deep else 5)
        for k in range(16 if deep else 4):
            add("set_sessions", str(k), k=k, count=100 if deep else 30)
    if cid == "C16":
        add("search_trees", "4", n=4, d=4, algos=["bfs"])
        if deep:
            add("search_trees", "5", n=5, d=5, exact=1, algos=["bfs"])
        for k in range(16 if deep else 4):
            add("search_graphs", str(k), k=k, count=1500 if deep else 400, algos=["bfs"])
    if cid == "C17":
        add("search_trees", "4", n=4, d=4, algos=["dfs"])
        add("search_trees", "3 weighted", n=3, d=3, w=2, algos=["astar"])
        add("search_trees", "4 weighted", n=4, d=3, w=1, exact=1, algos=["astar"], replay=10 ** 9 if deep else 1500)
        if deep:
            add("search_trees", "5", n=5, d=5, exact=1, algos=["dfs"])
        for k in range(16 if deep else 4):
            add("search_graphs", str(k), k=k, count=1500 if deep else 400, algos=["dfs", "astar"])
    for c, asks, names, feat in MACHINES:
        if c == cid:
            for n in names:
                add("machine", n, names=[n], asks=asks)
            for k in range(16 if deep else 4):
                add("machine", "random %d" % k, k=k, asks=asks, everywhere=1, depth=1, feat=feat, count=12 if deep else 5)
    if cid == "C25":
        for k in range(48 if deep else 12):
            add("command_line", str(k), k=k, count=120 if deep else 40)
    if cid == "C20":
        add("builder_model", depth=3 if deep else 2)
        for k in range(24 if deep else 6):
            add("builders", str(k), k=k, count=1500 if deep else 500)
    return out


def claimed(cid):
    return bool(jobs(cid, "quick", 1))


TECHNIQUE = {
    "C24": "TLA+ specification checked by TLC; recorded sessions of the Python module validated as behaviours of it",
}
NOTE = {
    "C24": "TLC validates every recorded call made from Python to the module built from src/python/symbolic.cc against the "
           "TLA+ semantics in spec/Pddl.tla. pybind11 is not installed: harness/pybind is a stand-in for it written "
           "for this purpose over CPython's own interface (same conversions, overloads, ownership), so pybind11 itself "
           "and NumPy arrays are outside the check. Bounded: small domains, finitely many sessions per run.",
}
NOTE_DEFAULT = (
    "TLC validates every recorded call of randomly generated sessions (random domains, problems, states and operation "
    "sequences; full results, not samples of them) against the TLA+ semantics in spec/Pddl.tla. Bounded: small domains, "
    "finitely many sessions per run; trusts TLC, the driver and the stand-in for VAL's parser.")
NOT_APPLICABLE = {
}
for _i in range(1, 26):
    NOT_APPLICABLE.setdefault("C%02d" % _i, "no check yet")
