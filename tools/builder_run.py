"""Runs calls of the real problem builder: JSON list of calls in, results out.

Runs in a process of its own.  Loads symbolic/problem.py alone: the package
itself needs the compiled module.
"""
import importlib.util
import json
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    spec = importlib.util.spec_from_file_location("problem", REPO + "/symbolic/problem.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def expr(m, f):
    k = f["k"]
    if k == "raw":
        return f["text"]
    if k == "atom":
        return m._P(f["p"], *f["a"])
    if k in ("and", "or"):
        return getattr(m, "_" + k)(*[expr(m, x) for x in f["fs"]])
    if k == "not":
        return m._not(expr(m, f["f"]))
    if k == "when":
        return m._when(expr(m, f["c"]), expr(m, f["f"]))
    return getattr(m, "_" + k)(f["v"], f["t"], expr(m, f["f"]))


def attempt(f, *a):
    try:
        return f(*a)
    except ValueError:
        return "ValueError"


def main():
    m = load()
    keep = {}
    out = []
    for c in json.load(sys.stdin):
        e, r, b = "", "", keep.get(c.get("id"))
        try:
            if c["op"] == "new":
                keep[c["id"]] = m.Problem(c["n"], c["d"]) if c["d"] else m.Problem(c["n"])
            elif c["op"] == "obj":
                b.add_object(c["n"], c["t"]) if c["t"] else b.add_object(c["n"])
            elif c["op"] == "init":
                b.add_initial_prop(c["text"])
            elif c["op"] == "setinit":
                b.set_initial_state(c["kind"] == "set" and set(c["text"]) or c["text"])
            elif c["op"] == "goal":
                b.set_goal(expr(m, c["x"]))
            elif c["op"] == "str":
                r = str(b)
            elif c["op"] == "expr":
                r = m.pprint_formula(expr(m, c["x"]))
            elif c["op"] == "atom":
                r = m._P(*c["q"])
            elif c["op"] == "parse":
                x, h, a = attempt(m.parse_proposition, c["text"]), attempt(m.parse_head, c["text"]), attempt(
                    m.parse_args, c["text"])
                if x == "ValueError":
                    e, r = x, [h, a]
                else:
                    r = dict(head=h, args=a, prop=[x[0]] + list(x[1]))
        except Exception as x:  # pylint: disable=broad-except
            e = type(x).__name__
        out.append([e, r])
    json.dump(out, sys.stdout)


main()
