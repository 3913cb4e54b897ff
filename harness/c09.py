"""C09: leaf fitting is the weighted closed-form maximum-likelihood estimate."""
from circuits import *
import conditional

CONTINUOUS = ("exponential", "gamma", "laplace", "log_normal", "normal", "uniform", "histogram")
NAN = float("nan")


def value(rng, d, n):
    if d == "histogram":
        e = n["aux"]
        return rng.choice([rng.uniform(e[0], e[-1]) * 0.999, rng.choice(e[:-1])])
    if d == "uniform":
        return rng.uniform(-0.5, 0.5)
    if d == "binomial":  # counts up to the smallest number of trials of the leaf
        return float(rng.randint(0, int(min(p[0] for r in n["par"] for f in r for p in f))))
    return val_of(rng, d)


def constant(rng, d, n):
    """degenerate data: one repeated, often extreme, value"""
    if d in ("bernoulli", "categorical", "binomial"):
        hi = {"bernoulli": 1, "categorical": CAT_K - 1}.get(d) or int(min(p[0] for r in n["par"] for f in r for p in f))
        return float(rng.choice([0, hi]))
    if d in ("geometric", "poisson", "negative_binomial", "hypergeometric"):
        return float(rng.choice([0, 0, 2]))
    if d == "exponential":
        return rng.choice([0.0, 1.5])
    return {"gamma": 2.0, "log_normal": 1.0, "uniform": 0.25, "histogram": n["aux"][0] if n["aux"] else 0}.get(d, rng.choice([0.0, -1.25]))


def weights(rng, mode, N, shape):
    F, C, R = shape
    one = {"row": lambda: rng.uniform(0.05, 3), "int": lambda: float(rng.randint(1, 4)), "zero": lambda: float(rng.randint(0, 2)),
           "big": lambda: rng.uniform(10, 1000), "tiny": lambda: 10 ** rng.uniform(-9, -3)}
    if mode == "row":  # the same for every cell
        col = [one["row"]() for _ in range(N)]
        return [[[[w] * C for _ in range(F)] for _ in range(R)] for w in col]
    g = one.get(mode, one["row"])
    out = [[[[g() for _ in range(C)] for _ in range(F)] for _ in range(R)] for _ in range(N)]
    for r in range(R):  # never all zero
        for f in range(F):
            for c in range(C):
                if all(out[b][r][f][c] == 0 for b in range(N)):
                    out[rng.randrange(N)][r][f][c] = 1.0
    return out


GRID = [(2, True), (1, True), (3, False), (3, True), (2, False), (2, True), (12, True), (5, False), (1, False), (5, True)]


def fit(tr, rng, prog, j, nv, k, deg=False):
    n, m = prog.nodes[j - 1], prog.mods[j - 1]
    d = n["dist"]
    base = d if d != "cltree" else ("bernoulli" if m.K == 2 else "categorical")
    N = rng.choice([2, 3, 8]) if d == "cltree" else GRID[k % len(GRID)][0]
    kw = {}
    if deg:
        rows = [[constant(rng, base, n)] * nv] * N
    else:
        rows = [[value(rng, base, n) if v in n["scope"] else rng.choice([NAN, 3.5]) for v in range(nv)] for _ in range(N)]
        if rng.random() < 0.2:  # repeated rows
            rows = rows + [list(r) for r in rng.choices(rows, k=2)]
    rows = [list(r) for r in rows]
    nan = rng.random() < 0.35
    if nan:
        keep = [list(r) for r in rows[:2]]
        for r in rows:
            if rng.random() < 0.5:
                r[rng.choice(n["scope"])] = NAN
        rows += keep
        rng.shuffle(rows)
        kw["nan_strategy"] = "ignore"
    wm = rng.choice(["none", "row", "cell", "int", "zero", "big", "tiny"])
    bias = GRID[k % len(GRID)][1] if rng.random() < 0.8 else rng.random() < 0.5
    ev = {}
    if wm != "none":
        shape = m.out_shape
        w = weights(rng, wm, len(rows), (shape.features, shape.channels, shape.repetitions))
        if nan:  # the kept rows must carry weight in every cell
            for b, r in enumerate(rows):
                if not any(r[v] != r[v] for v in n["scope"]):
                    w[b] = [[[x or 1.0 for x in fs] for fs in rs] for rs in w[b]]
        kw["weights"] = torch.tensor(w).permute(0, 2, 3, 1).contiguous()
        ev["w"] = nums(w)
    x = torch.tensor(rows)
    wt = kw["weights"].clone() if "weights" in kw else None
    others = snapshot(prog, m)
    if bias and rng.random() < 0.5:
        pass  # the default
    else:
        kw["bias_correction"] = bias
    tag = "mle:" + d + (":degenerate" if deg else "")
    if m.training and rng.random() < 0.5:
        m.eval()
    ok, _ = tr.attempt(tag, lambda: m.maximum_likelihood_estimation(x, **kw))
    if not ok:
        return
    ok, after = tr.attempt(tag + ":read", lambda: to_spec(read_leaf(m, n)))
    if not ok:
        return
    if d == "cltree":
        ev.update(cpt=after["cpt"], alpha=num(m.alpha))
        tr.add("eq", tag, clause="structure_changed", a=[p - 1 for p in n["parent"]], b=m.parents.tolist())
    else:
        ev["par"] = after["par"]
    tr.add("mle", tag, j=j, rows=nums(rows), bias=bias, **ev)
    prog.nodes[j - 1] = read_leaf(m, n)
    tr.add("eq", tag, clause="input_modified", a=[nums(rows), ev.get("w", [])],
           b=[nums(x), nums(kw["weights"].permute(0, 3, 1, 2)) if wt is not None else []])
    now = snapshot(prog, m)
    tr.add("eq", tag, clause="other_parameters_changed", a=[str(k) for k, v in others.items() if not torch.equal(v, now[k])], b=[])
    # inference follows the fitted parameters
    rows2 = [[value(rng, base, n) for _ in range(nv)] for _ in range(2)]
    flat = [abs(x) for rs in prog.nodes[j - 1].get("par", []) for fs in rs for p in fs for x in p[-1:]]
    if d in ("bernoulli", "binomial") and all(x < 1 - 1e-9 for x in flat) or not deg and d != "cltree" and all(0.05 < x < 50 for x in flat) and (d in CONTINUOUS or all(x < 0.999 for x in flat) or d == "poisson"):
        ll_event(tr, prog, j, rows2, tag + ":ll", tol="1e-6")


def snapshot(prog, m):
    """every tensor held by a module other than m"""
    return {(i, k): v.detach().clone() for i, o in enumerate(prog.mods) if o is not m
            for k, v in [*o.named_parameters(recurse=False), *o.named_buffers(recurse=False)]}


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    nv = max(var_types(prog.nodes), default=0) + 1
    for j, n in enumerate(prog.nodes, 1):
        if n["op"] == "leaf":
            for k in range(reps):
                fit(tr, rng, prog, j, nv, k, deg=k % 3 == 2 and n["dist"] != "cltree")
    return tr


def fixed_programs(rng):
    """every family as a leaf over several features, channels and repetitions"""
    out = []
    for d in ["bernoulli"] + CONT:
        for F, C, R in ((1, 1, 1), (3, 2, 2), (1, 3, 1), (2, 1, 3)):
            if d == "histogram" and F > 1:
                F, C, R = 1, F, C + 1
            for v in (0, 1):
                n = fill(leaf_node(rng.sample(range(4), F), C, R, d), rng)
                if d in ("binomial", "negative_binomial"):  # every cell its own number of trials
                    n["par"] = [[[[float(rng.randint(1, 5)), *p[1:]] for p in f] for f in r] for r in n["par"]]
                n["_variant"] = v
                out.append([n])
    for par in ([0, 1, 2], [2, 0, 2], [3, 1, 0, 3]):
        for K, C, R in ((2, 2, 1), (3, 1, 2)):
            out.append([fill({"op": "leaf", "ins": [], "dist": "cltree", "scope": rng.sample(range(5), len(par)), "aux": [], "parent": par,
                              "cpt": [[[[["?"] * K for _ in range(1 if p == 0 else K)] for p in par] for _ in range(C)] for _ in range(R)]}, rng)])
    return out


def malformed(rng):
    tr = Trace("malformed")
    x = torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]])
    for d in CONT + ["bernoulli"]:
        if d in ("hypergeometric", "uniform", "histogram"):
            continue
        leaf = mk_node(fill(leaf_node([0], 2, 1, d), rng), [])
        y = x + 0.5 if d in ("gamma", "log_normal") else x
        before = {k: v.clone() for k, v in leaf.state_dict().items()}
        nanx = torch.cat([y, torch.full((1, 2), NAN)])
        tr.must_raise("nan:" + d, lambda: leaf.maximum_likelihood_estimation(nanx))
        tr.must_raise("nanall:" + d, lambda: leaf.maximum_likelihood_estimation(torch.full((2, 2), NAN), nan_strategy="ignore"))
        tr.must_raise("strategy:" + d, lambda: leaf.maximum_likelihood_estimation(nanx, nan_strategy="impute"))
        tr.must_raise("wshape:" + d, lambda: leaf.maximum_likelihood_estimation(y, weights=torch.ones(2, 1, 2, 1)))
        tr.add("eq", "rejected:" + d, clause="parameters_changed", a=[], b=[k for k, v in before.items() if not torch.equal(v, leaf.state_dict()[k])])
    h = mk_node(fill(leaf_node([0], 1, 1, "histogram"), rng), [])
    for v in (99.0, -99.0, math.inf):
        tr.must_raise("outside:histogram", lambda: h.maximum_likelihood_estimation(torch.tensor([[0.0], [v]])))
    return tr


def cond(nodes, rng, idx):
    p = conditional.Cond(nodes, rng, f"cond{idx}")
    conditional.refusals(p, rng, "fit")
    return p.traces()


def main(check):
    global reps
    check.design("MleMC", f"""SPECIFICATION Spec
CONSTANTS MaxRows = {3 if check.quick() else 4} Vals = {{0, 1, 2}} Wts = {{0, 1, 2}}
INVARIANTS ScaleFree Repeats ZeroWeight Best LaplaceMedian
CHECK_DEADLOCK FALSE
""")
    reps = 7 if check.quick() else 20
    ps = fixed_programs(check.rng) + corpus(check, 0.4 if check.quick() else 3, seed=9, conv=False)
    cs = [t for q in pmap(cond, conditional.jobs(check, 0.2, 109), check.seed + 1) for t in q]
    check.run("LibTrace", cs + pmap(replay, ps, check.seed) + [malformed(check.rng)])
