"""C19: circuit expressions denote the mixtures and products they spell."""
from importer import *
from spflow import dsl as D
import contextlib

# (dist choices, scope, channels, repetitions): mirrors Pool of DslGen
POOL = [(None, [0], 1, 1)] * 2 + [(None, [1], 1, 1)] * 2 + [(None, [2], 1, 1)] * 2 + [(None, [0], 2, 1), (None, [1], 1, 2),
        (None, [0, 1], 1, 1), ("prod", [0, 1], 1, 1), (None, [1, 2], 1, 1), (None, [3], 1, 1), ("sum", [3], 1, 1)]
DISTS = {0: "bernoulli", 1: "normal", 2: "categorical", 3: "poisson"}


def pool(prog, rng):
    """the modules of the term pool, as nodes of prog: index of each"""
    out = []
    leaf = lambda v, C=1, R=1: prog.mk(fill(leaf_node([v], C, R, DISTS[v]), rng))
    for how, scope, C, R in POOL:
        if how == "prod":
            leaf(0), leaf(1)
            n = len(prog.mods)
            prog.mk(node("prod", [n - 1, n]))
        elif how == "sum":
            leaf(3, 2)
            prog.mk(dict(node("sum", [len(prog.mods)]), w=[[[simplex(rng, 2)]]]))
        elif len(scope) == 2:
            # one module with two features over different kinds of variables: concatenation along features
            if rng.random() < 0.5:
                scope = scope[::-1]
            leaf(scope[0]), leaf(scope[1])
            n = len(prog.mods)
            prog.mk(node("cat1", [n - 1, n]))
        else:
            leaf(scope[0], C, R)
        out.append(len(prog.mods))
    return out


class OpFailed(Exception):
    pass


def replay(hist, rng, idx):
    tr = Trace(f"dsl{idx}")
    prog = Prog(tr, [])
    ids = pool(prog, rng)
    if len(prog.mods) < ids[-1]:
        return tr
    vt, nv = var_types(prog.nodes), 4
    raw = idx % 2 == 0  # bare modules with overloaded operators, or term(...)
    flags = lambda: [int(f"__{o}__" in vars(Module)) for o in ("mul", "rmul", "add", "radd")]
    before = flags()
    ast, exprs = [], []
    with D.dsl() if raw else contextlib.nullcontext():
        for h in hist:
            op = h["op"]
            v = h.get("v", 0)
            spec = {"op": op, "a": h.get("a", 0), "b": h.get("b", 0), "w": h.get("w", "0"), "m": 0}
            if op == "term":
                spec["m"] = ids[h["p"] - 1]
                m = prog.mods[spec["m"] - 1]
                f = lambda: m if raw and v > 1 else D.as_expr(m) if v == 3 else D.term(m)
            else:
                a = exprs[h["a"] - 1]
                b = exprs[h["b"] - 1] if "b" in h else None
                if a is None or (b is None and "b" in h):
                    ast.append(spec)
                    exprs.append(None)
                    continue
                x = float(h.get("w", 0))
                x = int(x) if v == 4 and x == x and abs(x) < 1e9 and x == int(x) else x
                f = {"mul": lambda: a * b, "add": lambda: a + b,
                     "scale": lambda: x * a if v == 1 else a * x if v == 2 and not isinstance(a, D.WeightedExpr) else D.w(x, a) if v == 3 else x * a}[op]
            ast.append(spec)
            try:
                e = f()
            except Exception as err:  # noqa: BLE001
                if not isinstance(err, (TypeError, ValueError, D.InvalidParameterError, D.InvalidWeightsError)):
                    tr.add("raise", "operator:" + op, err=repr(err))
                tr.add("expr", "operator:" + op, ast=ast[:], i=len(ast), accepted=False)
                exprs.append(None)
                continue
            exprs.append(e)
    inner = before
    if raw and rng.random() < .5:  # nested blocks, left by an exception
        try:
            with D.dsl():
                with D.dsl():
                    pass
                inner = flags()
                raise KeyError
        except KeyError:
            pass
        tr.add("eq", "dsl:nested", clause="operators_lost", a=inner, b=[1, 1, 1, 1])
    tr.add("eq", "dsl:restored", clause="operators_left_behind", a=flags(), b=before)
    order = [i for i, e in enumerate(exprs) if e is not None and ast[i]["op"] != "term"]
    rng.shuffle(order)
    for i in order + order[:3]:
        tag = "build:" + ast[i]["op"]
        try:
            m = D.build(exprs[i]) if rng.random() < .5 or isinstance(exprs[i], Module) else exprs[i].build()
        except Exception as err:  # noqa: BLE001
            tr.add("expr", tag, ast=ast[:i + 1], i=i + 1, accepted=False, err=repr(err)[:80])
            continue
        rows = [rand_row(rng, vt, nv) for _ in range(2)]
        ok, out = tr.attempt("ll:" + tag, lambda: m.log_likelihood(torch.tensor(rows)))
        if ok:
            tr.add("expr", tag, ast=ast[:i + 1], i=i + 1, accepted=True, rows=[nums(r) for r in rows], out=out_tokens(out),
                   shape=[m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions], scope=sorted(map(int, m.scope.query)))
    return tr


def directed():
    """long products and mixtures on either side of every operator, plain modules and expressions as operands"""
    out = []
    for v in (1, 2, 3):
        T = lambda *ps: [{"op": "term", "p": p, "v": v} for p in ps]
        op = lambda o, a, b, z=1: {"op": o, "a": a, "b": b, "v": z}
        sc = lambda a, w_, z=1: {"op": "scale", "a": a, "w": w_, "v": z}
        for left in (0, 1):
            mul = lambda a, b: op("mul", b, a) if left else op("mul", a, b)
            add = lambda a, b: op("add", b, a) if left else op("add", a, b)
            # one * (w * (a * b * c)), twice, mixed
            h = T(1, 3, 5, 12, 2, 4)  # 1..6
            h += [mul(1, 2), mul(7, 3), sc(8, "0.5"), mul(4, 9), sc(9, "3") if left else mul(9, 4), mul(5, 6), mul(12, 3), sc(13, "2"), mul(4, 14), add(10, 15), add(10, 16), add(15, 17), add(10, 10), add(11, 11), add(15, 15), add(9, 9)]
            out.append(h)
            # mixtures of three and more terms, on both sides; mixtures as factors; rescaled mixtures
            h = T(1, 2, 1, 2, 3)
            h += [sc(1, "0.5"), sc(2, "2"), sc(3, "0.25"), add(6, 7), add(9, 8), add(6, 10), add(10, 7), add(10, 9), mul(10, 5), mul(5, 11), sc(10, "0.1", 3), sc(13, "3"), add(16, 17)]
            out.append(h)
    return out


def main(check):
    qk = check.quick()
    for L_, n in ((14, 60 if qk else 300), (24, 60 if qk else 300), (36, 24 if qk else 150)):
        hs = histories(check, "DslGen", f"MaxLen = {L_}", n, L_, check.seed + L_) + (directed() * 2 if L_ == 14 else [])
        check.run("LibTrace", pmap(replay, hs, check.seed + L_))
