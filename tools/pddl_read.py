"""Reads PDDL files into the data form of spec/Pddl.tla (independently of the library)."""
import re
import sys

from session import read_formula, sexpr, typed_list


def parse(text):
    return sexpr(re.sub(r";[^\n]*", " ", text.lower()))


def _objs(xs):
    return typed_list(xs)


def _effect(x, e=None):
    """Conjunctions are flattened; the order within each kind is kept."""
    e = dict(fa=[], add=[], cd=[], **{"del": []}) if e is None else e
    if x == []:
        return e
    if x[0] == "and":
        for y in x[1:]:
            _effect(y, e)
    elif x[0] == "not":
        e["del"].append(dict(k="atom", p=x[1][0], a=x[1][1:]))
    elif x[0] == "forall":
        e["fa"].append(dict(ps=typed_list(x[1]), e=_effect(x[2])))
    elif x[0] == "when":
        e["cd"].append(dict(c=read_formula(x[1]), e=_effect(x[2])))
    else:
        e["add"].append(dict(k="atom", p=x[0], a=x[1:]))
    return e


def _fields(xs):
    return {xs[i]: xs[i + 1] for i in range(0, len(xs), 2)}


def read(domain, problem):
    d, p = parse(domain), parse(problem)
    D = dict(name="", types=[], consts=[], objs=[], preds=[], acts=[], axs=[], drvs=[], init=[], goal=None)
    for x in d[1:]:
        k = x[0]
        if k == "domain":
            D["name"] = x[1]
        elif k == ":types":
            D["types"] = [dict(n=t["n"], p=t["t"]) for t in typed_list(x[1:])]
        elif k == ":constants":
            D["consts"] = _objs(x[1:])
        elif k == ":predicates":
            D["preds"] = [dict(n=q[0], ps=typed_list(q[1:])) for q in x[1:]]
        elif k == ":action":
            f = _fields(x[2:])
            D["acts"].append(dict(n=x[1], ps=typed_list(f[":parameters"]),
                                  pre=read_formula(f.get(":precondition", [])), eff=_effect(f.get(":effect", []))))
        elif k == ":axiom":
            f = _fields(x[1:])
            c = f[":context"]
            pos = c[0] != "not"
            c = c if pos else c[1]
            D["axs"].append(dict(ps=typed_list(f[":vars"]), ctx=dict(pos=pos, p=c[0], a=c[1:]), imp=_effect(f[":implies"])))
        elif k == ":derived":
            D["drvs"].append(dict(p=x[1][0], ps=typed_list(x[1][1:]), body=read_formula(x[2])))
    for x in p[1:]:
        if x[0] == ":objects":
            D["objs"] = _objs(x[1:])
        elif x[0] == ":init":
            D["init"] = x[1:]
        elif x[0] == ":goal":
            D["goal"] = read_formula(x[1])
    return D


if __name__ == "__main__":
    import json
    print(json.dumps(read(*(open(f).read() for f in sys.argv[1:3])), indent=1))
