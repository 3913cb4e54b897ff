"""C08: an EM step sets normalised expected counts and never lowers the likelihood."""
from copy import deepcopy
from circuits import *
from c09 import value
import zoo
from spflow.learn.expectation_maximization import expectation_maximization, expectation_maximization_batched

EXACT = {"bernoulli", "binomial", "categorical", "poisson", "geometric", "exponential", "normal", "log_normal", "laplace",
         "negative_binomial", "uniform", "hypergeometric", "histogram"}


def rows_for(rng, prog, i, nv, N, odd=False):
    vt = {}
    for j in below(prog.nodes, i) | {i}:
        n = prog.nodes[j - 1]
        if n["op"] == "leaf":
            for v in n["scope"]:
                vt.setdefault(v, []).append(n)
    def val(ns):
        ds = {n["dist"] for n in ns}
        if "histogram" in ds or "uniform" in ds and not odd:
            n = [n for n in ns if n["dist"] in ("histogram", "uniform")][0]
            return rng.uniform(-0.45, 0.45)
        d = ns[0]["dist"]
        if d == "cltree":
            d = "bernoulli" if len(ns[0]["cpt"][0][0][0][0]) == 2 else "categorical"
        return val_of(rng, d)
    rows = [[val(vt[v]) if v in vt else 7.0 for v in range(nv)] for _ in range(N)]
    if rng.random() < 0.3:
        rows += [list(rows[0])]
    return rows


def after(prog, j):
    n = to_spec(read_node(prog.mods[j - 1], prog.nodes[j - 1]))
    out = {"j": j}
    for k in ("w", "cpt", "par"):
        if k in n:
            out[k] = n[k]
    if "cpt" in out:
        out.pop("par", None)
        out["alpha"] = num(prog.mods[j - 1].alpha)
    return out


def tunable(n):
    return n["op"] == "leaf" or "w" in n


def sharp(d, p):
    """densities or probabilities of these parameters cannot be told apart from rounding"""
    if d in ("normal", "log_normal", "laplace"):
        return abs(p[-1]) < 1e-3
    if d in ("gamma", "exponential"):
        return max(p) > 1e3 or min(p) < 1e-3
    return d in ("bernoulli", "binomial", "geometric", "negative_binomial") and any(1 - 1e-9 < x < 1 for x in p)


def well_conditioned(prog, i):
    """no leaf has collapsed onto a point"""
    return not any(sharp(n["dist"], p) for j in below(prog.nodes, i) | {i} for n in [prog.nodes[j - 1]] if n["op"] == "leaf"
                   for rs in n.get("par", []) for fs in rs for p in fs)


def em_event(tr, rng, prog, i, rows, bias, tag, api=None):
    m = prog.mods[i - 1]
    x = torch.tensor(rows)
    read = lambda: [after(prog, j) for j in range(1, len(prog.nodes) + 1) if tunable(prog.nodes[j - 1])]
    ok, bef = tr.attempt(tag + ":read", read)
    if not ok:
        return None
    ok, h = tr.attempt(tag, lambda: (api or expectation_maximization)(m, x, bias))
    if not ok:
        return None
    sub = below(prog.nodes, i) | {i}
    ok, aft = tr.attempt(tag + ":read", read)
    if not ok:
        return None
    with torch.no_grad():
        ok, nxt = tr.attempt(tag + ":next", lambda: m.log_likelihood(x).sum() / len(rows))
    if not ok:
        return None
    mono = not bias and all(prog.nodes[j - 1].get("dist", "normal") in EXACT for j in sub)
    tr.add("em", tag, m=i, rows=nums(rows), bias=bias, before=bef, after=aft, hist=num(h), next=num(nxt), mono=mono)
    tr.add("eq", tag, clause="input_modified", a=nums(rows), b=nums(x))
    for j in range(1, len(prog.nodes) + 1):
        prog.nodes[j - 1] = read_node(prog.mods[j - 1], prog.nodes[j - 1])
    return h


def one_step(m, x, bias):
    h = expectation_maximization(m, x, max_steps=1, bias_correction=bias)
    if tuple(h.shape) != (1,):
        raise ValueError(f"history of one step has shape {tuple(h.shape)}")
    return h[0]


def one_batch(m, x, bias):
    h = expectation_maximization_batched(m, [(x,)], num_epochs=1, bias_correction=bias)
    return h[0]


def state(m):
    return [nums(v) for _, v in sorted(m.state_dict().items())]


def run_event(tr, rng, m, rows, bias, tag, least=1):
    """the training loop against single steps"""
    x = torch.tensor(rows)
    a, b, k = deepcopy(m), deepcopy(m), rng.choice((1, 2, 4, 7, 40))
    ok, hist = tr.attempt(tag, lambda: expectation_maximization(a, x, max_steps=k, bias_correction=bias))
    if not ok:
        return
    ok, singles = tr.attempt(tag, lambda: [one_step(b, x, bias) for _ in range(len(hist))])
    if ok:
        tr.add("emrun", tag, hist=nums(hist), singles=[num(s) for s in singles], max=k)
        tr.add("close", tag, clause="parameters_differ_from_single_steps", a=flat(state(a)), b=flat(state(b)), tol="1e-7")
    # mini-batches: one step per batch, the history being the epoch's average
    a, b = deepcopy(m), deepcopy(m)
    cut = rng.randint(least, len(rows) - least) if len(rows) >= 2 * least else len(rows)
    parts = [p for p in (x[:cut], x[cut:]) if len(p)]
    e = rng.choice((1, 2))
    ok, hist = tr.attempt(tag + ":batched", lambda: expectation_maximization_batched(a, parts, num_epochs=e, bias_correction=bias))
    if not ok:
        return
    ok, s = tr.attempt(tag + ":batched", lambda: [[one_step(b, p, bias) * len(p) for p in parts] for _ in range(e)])
    if ok:
        tr.add("close", tag + ":batched", clause="history", a=[num(h) for h in hist], b=[num(sum(q) / len(x)) for q in s], tol="1e-7")
        tr.add("close", tag + ":batched", clause="parameters_differ_from_single_steps", a=flat(state(a)), b=flat(state(b)), tol="1e-7")


def flat(x):
    return [y for q in x for y in flat(q)] if isinstance(x, list) else [x]


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    nv = max(var_types(prog.nodes)) + 1
    inner = [i for i in range(1, len(prog.mods) + 1) if prog.nodes[i - 1]["op"] != "leaf"]
    leaves = [i for i in range(1, len(prog.mods) + 1) if prog.nodes[i - 1]["op"] == "leaf"]
    todo = rng.sample(inner, min(len(inner), 3 if not deep else 6)) + rng.sample(leaves, min(1, len(leaves)))
    for i in todo:
        if not well_conditioned(prog, i):
            continue
        cl = uses(prog.nodes, i, "cltree")
        N = rng.choice((2, 3, 5) if cl else (1, 2, 3, 4, 5, 6))
        rows = rows_for(rng, prog, i, nv, N, odd=rng.random() < 0.2)
        bias = rng.random() < 0.3
        tag = "em:" + kind(prog.nodes[i - 1])
        run_event(tr, rng, prog.mods[i - 1], rows, bias, "run:" + kind(prog.nodes[i - 1]), 2 if cl else 1)
        for k in range(2):
            api = rng.choice((one_step, one_step, one_batch))
            if em_event(tr, rng, prog, i, rows, bias, tag, api) is None or not well_conditioned(prog, i):
                break
    return tr


def whole(j, rng, idx):
    """steps of a ready-made model, started at the model itself"""
    z = zoo.build(j, rng, f"zoo{idx}")
    if z is None:
        return Trace("none")
    tr, prog, i = z
    m = prog.mods[i - 1]
    if j["kind"] == "naive" and j["roots"] > 1 and not m.learnable_prior:
        return Trace("none")
    root = m.root_node if hasattr(m, "root_node") else m.inputs
    rows = rows_for(rng, prog, i, max(var_types(prog.nodes)) + 1, rng.choice((2, 3, 5)))
    bias = rng.random() < 0.5
    tag = "em:" + j["kind"]
    run_event(tr, rng, m, rows, bias, "run:" + j["kind"], 1)
    prog.mods[i - 1] = root  # the parameters are the root's, the calls the model's
    for k in range(2):
        if em_event(tr, rng, prog, i, rows, bias, tag, lambda _, x, b: rng.choice((one_step, one_batch))(m, x, b)) is None or not well_conditioned(prog, i):
            break
    return tr


def main(check):
    global deep
    deep = not check.quick()
    ps = corpus(check, 0.6 if check.quick() else 4, seed=8) + [p for p in directed_programs(check.rng, deep)
         if sum(len(json.dumps(n.get("w", ""))) for n in p) < 4000]
    ps = [peaked(p, check.rng) if i % 4 == 1 else p for i, p in enumerate(ps)]
    zs = pmap(whole, zoo.jobs(check, 40 if check.quick() else 300, seed=8), check.seed + 1)
    check.run("LibTrace", [t for t in zs if t.events] + pmap(replay, ps, check.seed))
