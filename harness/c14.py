"""C14: weights and leaf parameters read back as set and are used from then on; invalid weights are rejected."""
from sampling import *

SPEC_OF = {"sum": (3, 0, 2, 1), "esum": (4, 0, 1, 2, 3), "einsum": (2, 0, 1, 3, 4), "linsum": (2, 0, 1, 3), "rmix": (0, 1, 2)}
# property -> (column of the parameter vector, how the written number is read, generator of a value)
U = lambda a, b: (lambda rng, f: round(rng.uniform(a, b), 3))
PROPS = {"bernoulli": {"probs": (1, "plain", U(.05, .95)), "logits": (1, "logit", U(-3, 3))},
         "geometric": {"probs": (1, "plain", U(.15, .9)), "logits": (1, "logit", U(-1, 2))},
         "binomial": {"total_count": (1, "plain", lambda rng, f: 3.0), "probs": (2, "plain", U(.05, .95)), "logits": (2, "logit", U(-3, 3))},
         "negative_binomial": {"probs": (2, "plain", U(.2, .8)), "logits": (2, "logit", U(-1, 1)), "total_count": (1, "plain", lambda rng, f: float(rng.randint(1, 4)))},
         "normal": {"scale": (2, "plain", U(.3, 2))}, "laplace": {"scale": (2, "plain", U(.3, 2))}, "log_normal": {"scale": (2, "plain", U(.3, 1))},
         "exponential": {"rate": (1, "plain", U(.3, 3))}, "poisson": {"rate": (1, "plain", U(.3, 4))},
         "gamma": {"concentration": (1, "plain", U(.5, 4)), "rate": (2, "plain", U(.3, 3))},
         "categorical": {"probs": (0, "probs", None), "logits": (0, "logits", None)},
         "histogram": {"probs": (0, "probs", None), "logits": (0, "logits", None)}}
BAD = {"bernoulli": [("probs", -.1), ("probs", 1.2), ("probs", math.nan)], "geometric": [("probs", -.1), ("probs", 1.2)],
       "binomial": [("probs", -.1), ("probs", 1.2), ("total_count", -1.0), ("total_count", 1.5)], "negative_binomial": [("probs", -.1), ("probs", 1.2), ("total_count", -1.0)],
       "normal": [("scale", -1.0), ("scale", 0.0), ("scale", math.nan)], "laplace": [("scale", -1.0), ("scale", 0.0)], "log_normal": [("scale", -1.0), ("scale", 0.0)],
       "exponential": [("rate", -1.0), ("rate", 0.0)], "poisson": [("rate", -1.0)], "gamma": [("rate", -1.0), ("concentration", 0.0), ("concentration", -1.0)],
       "categorical": [("probs", -.1), ("probs", math.nan)], "histogram": [("probs", -.1), ("probs", math.nan), ("probs", math.inf)]}


def to_layout(op, t):
    """a weight tensor of the real module in the layout of the specification"""
    if op == "sconv":
        co, ci, kh, kw, r = t.shape
        return t.reshape(co, ci, kh * kw, r).permute(3, 2, 0, 1)
    return t.permute(*SPEC_OF[op])


def fresh_weights(rng, m, op, log):
    w = torch.tensor([float(rng.randint(1, 12)) for _ in range(m.weights.numel())]).reshape(m.weights.shape)
    if log:
        return torch.log(w) + round(rng.uniform(-2, 2), 2)
    return norm(w, op)


def norm(w, op):
    d = {"sum": (1,), "esum": (3,), "einsum": (-2, -1), "linsum": (-1,), "rmix": (-1,), "sconv": (1,)}[op]
    return w / w.sum(dim=d, keepdim=True)


def fault(rng, w, f, op):
    w = w.clone()
    i = tuple(rng.randrange(s) for s in w.shape)
    if f == "neg":
        w[i] = -w[i]
    elif f == "zero":
        w[i] = 0.0
        if rng.random() < 0.7:  # otherwise a distribution
            w = norm(w, op)
    elif f == "sum":
        w = w * rng.choice((0.9, 0.998, 1.001, 1.05, 2.0)) if rng.random() < 0.5 else torch.where(w == w[i], w * 1.3, w)
    elif f == "nan":
        w[i] = rng.choice((math.nan, math.inf))
    elif f == "shape":
        w = rng.choice((lambda: w[..., None], lambda: w.flatten(), lambda: torch.cat([w, w], 0), lambda: torch.cat([w, w], -1), lambda: w[0]))()
    elif f == "swap":  # normalised over the wrong axis
        d = rng.randrange(w.dim())
        w = w / w.sum(dim=d, keepdim=True)
    return w


def leaf_value(rng, m, n, prop):
    col, via, gen = PROPS[n["dist"]][prop]
    shape = getattr(m, prop).shape
    if gen is None:
        k = shape[-1]
        rows = [simplex(rng, k) if via == "probs" else [round(rng.uniform(-2, 2), 3) for _ in range(k)] for _ in range(int(np.prod(shape[:-1])))]
        return torch.tensor(rows).reshape(shape)
    return torch.tensor([gen(rng, 0) for _ in range(int(np.prod(shape)))]).reshape(shape)


def leaf_layout(t):
    """(F,C,R[,K]) -> r f c [k]"""
    return t.permute(2, 0, 1, *range(3, t.dim()))


def read(tr, prog, j):
    n = prog.nodes[j - 1]
    m = prog.mods[j - 1]
    ok, node_ = tr.attempt("read:" + kind(n), lambda: read_node(m, dict(n)))
    if not ok:
        return
    ev = {"node": {k: nums(v) if k in ("w", "par") else v for k, v in node_.items() if k in ("w", "par", "op")}}
    if "w" in n and hasattr(m, "log_weights"):
        ev["lw"] = nums(to_layout(n["op"], m.log_weights.detach()))
    tr.add("read", "read:" + kind(n), j=j, **ev)


def replay(job, rng, idx):
    nodes, hist = job
    tr = Trace(f"par{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    nodes = prog.nodes
    W = [j for j, n in enumerate(nodes, 1) if "w" in n and j <= len(prog.mods)]
    P = [j for j, n in enumerate(nodes, 1) if n.get("dist") in PROPS and j <= len(prog.mods)]
    vt = var_types(nodes)
    nv = max(vt) + 1
    handed = []
    for h in hist:
        op, k, g = h["op"], h["k"], h["g"]
        pick = lambda xs: xs[k % len(xs)]
        with torch.set_grad_enabled(g):
            if op in ("setw", "setlog", "badw") and W:
                j = pick(W)
                m, n = prog.mods[j - 1], nodes[j - 1]
                log = op == "setlog" and n["op"] != "sconv"
                if log and n["op"] == "rmix" and not hasattr(type(m), "log_weights"):
                    log = False
                v = fresh_weights(rng, m, n["op"], log)
                if op == "badw":
                    v = fault(rng, v, h["f"], n["op"])
                    if n["op"] not in ("sconv",) and h["f"] == "shape" and rng.random() < 0.4:
                        log = True
                shapeok = v.shape == m.weights.shape
                ev = {"j": j, "log": log, "shapeok": shapeok, "raised": False, "w": nums(to_layout(n["op"], v)) if shapeok else []}
                try:
                    if log:
                        m.log_weights = v
                    else:
                        m.weights = v
                except Exception as x:  # noqa: BLE001
                    ev.update(raised=True, err=f"{type(x).__name__}: {x}"[:160])
                else:
                    handed.append(v)
                tr.add("setw", f"{op}:{kind(n)}", **ev)
                read(tr, prog, j)
            elif op == "setp" and P:
                j = pick(P)
                m, n = prog.mods[j - 1], nodes[j - 1]
                prop = sorted(PROPS[n["dist"]])[h["x"] % len(PROPS[n["dist"]])]
                v = leaf_value(rng, m, n, prop)
                ev = {"j": j, "col": PROPS[n["dist"]][prop][0], "via": PROPS[n["dist"]][prop][1], "v": nums(leaf_layout(v)), "raised": False}
                try:
                    setattr(m, prop, v)
                except Exception as x:  # noqa: BLE001
                    ev.update(raised=True, err=f"{type(x).__name__}: {x}"[:160])
                else:
                    handed.append(v)
                tr.add("setp", f"setp:{n['dist']}:{prop}", **ev)
                read(tr, prog, j)
            elif op == "scribble" and handed:
                with torch.no_grad():
                    for v in handed:
                        v.mul_(0.37).add_(0.11)
                handed = []
                for j in W + P:
                    read(tr, prog, j)
            elif op in ("train", "eval"):
                prog.mods[k % len(prog.mods)].train(op == "train")
            elif op == "jolt" and W + P:
                # an optimiser-like in-place step on one module must leave every other one alone
                j = pick(W + P)
                m, n = prog.mods[j - 1], nodes[j - 1]
                with torch.no_grad():
                    for p in m.parameters(recurse=False):
                        p.add_(torch.rand_like(p) * 0.3)
                prog.nodes[j - 1] = read_node(m, dict(n))
                tr.add("upd", "jolt", j=j, node=to_spec(prog.nodes[j - 1]))
                for i in W + P:
                    read(tr, prog, i)
            elif op == "read" and W + P:
                read(tr, prog, pick(W + P))
            elif op == "ll":
                i = 1 + k % len(prog.mods)
                ll_event(tr, prog, i, [rand_row(rng, vt, nv) for _ in range(2)], "ll:" + kind(nodes[i - 1]))
            elif op == "mpe":
                i = 1 + k % len(prog.mods)
                if tree_ok(nodes, i) and not tainted(nodes, nodes[i - 1]) and not any(nodes[q_ - 1]["op"] == "rmix" and prog.mods[q_ - 1].out_shape.features > 1 for q_ in below(nodes, i) | {i}):
                    mpe_batch(tr, rng, prog, i, vt, nv, "weights", groups=1)
    for i in range(1, len(prog.mods) + 1):
        ll_event(tr, prog, i, [rand_row(rng, vt, nv)], "ll:" + kind(nodes[i - 1]))
    return tr


def shared(job, rng, idx):
    """two modules created from the same tensors are independent of each other and of those tensors"""
    nodes = job
    tr = Trace(f"shared{idx}")
    dist = nodes[0]["dist"]
    made = []
    leaf = nodes[0]

    orig = {}

    def keep(t, **kw):
        key = json.dumps(t)
        if key not in orig:
            orig[key] = torch.tensor(t, **kw)
        return orig[key]
    a = fill(leaf, rng)
    a["_variant"] = leaf.get("_variant", 0)
    col = {}
    par = torch.tensor(a["par"]).permute(1, 2, 0, 3).contiguous()
    import circuits as C_
    # the constructor arguments are captured by replacing the tensor helper: each leaf gets the very same tensor objects
    args = {}
    cls = {"bernoulli": L.Bernoulli, "binomial": L.Binomial, "categorical": L.Categorical, "exponential": L.Exponential, "gamma": L.Gamma,
           "geometric": L.Geometric, "laplace": L.Laplace, "log_normal": L.LogNormal, "negative_binomial": L.NegativeBinomial, "normal": L.Normal,
           "poisson": L.Poisson, "uniform": L.Uniform, "hypergeometric": L.Hypergeometric}[dist]
    if dist == "categorical":
        args = {"logits": par.log()} if a["_variant"] else {"probs": par.clone()}
    else:
        args = {p: par[..., i].clone() for i, p in enumerate(PARS[dist])}
        if a["_variant"] and "probs" in args:
            args["logits"] = torch.logit(args.pop("probs"))
    for s in (0, 1):
        ok, m = tr.attempt("shared:mk", lambda: cls(Scope([s]), **args))
        if not ok:
            return tr
        made.append(m)
        tr.add("mk", "shared:mk", node=to_spec(dict(a, scope=[s])))

    def look():
        for j, m in enumerate(made, 1):
            nd = read_leaf(m, dict(a, scope=[j - 1]))
            tr.add("read", "shared:" + dist, j=j, node={"par": nums(nd["par"]), "op": "leaf"})
    look()
    with torch.no_grad():
        for p in made[0].parameters():
            p.add_(0.125)
    tr.add("upd", "shared", j=1, node=to_spec(read_leaf(made[0], dict(a, scope=[0]))))
    look()
    if dist not in ("uniform", "hypergeometric"):
        with torch.no_grad():
            for t in args.values():
                t.mul_(0.5).add_(0.05)
        look()
    return tr


def invalid(job, rng, idx):
    """a parameter outside its domain never yields a likelihood; a later valid one is used as if nothing had happened"""
    tr = Trace(f"bad{idx}")
    for dist in job:
        n = fill(leaf_node([0], 2, 1, dist), rng)
        n["_variant"] = 0
        for prop, v in BAD[dist]:
            for via in ("ctor", "set"):
                prog = Prog(tr, [n])
                m = prog.mods[0]
                val = getattr(m, prop).detach().clone()
                if dist in ("categorical", "histogram"):
                    val[0, 0, 0, 0] = v
                else:
                    val[0, rng.randrange(2), 0] = v
                x = torch.tensor([[val_of(rng, dist)]])
                if via == "set":
                    def go():
                        setattr(m, prop, val)
                        m.log_likelihood(x)
                else:
                    kw = {p: getattr(m, p).detach().clone() for p in (PARS[dist] if dist in PARS else ["probs"])}
                    kw[prop] = val
                    if dist == "histogram":
                        kw["bin_edges"] = m.bin_edges

                    def go():
                        type(m)(Scope([0]), **kw).log_likelihood(x)
                tr.must_raise(f"bad:{via}:{dist}:{prop}", go)
                if via == "set" and prop in PROPS[dist]:
                    w = leaf_value(rng, m, n, prop)
                    ok, _ = tr.attempt("recover", lambda: setattr(m, prop, w))
                    tr.add("setp", "recover", j=len(prog_store(tr)), col=PROPS[dist][prop][0], via=PROPS[dist][prop][1], v=nums(leaf_layout(w)), raised=not ok)
                    out = m.log_likelihood(x)
                    tr.add("ll", "recover:" + dist, m=len(prog_store(tr)), rows=nums(x), out=out_tokens(out), rows_after=nums(x))
    return tr


def prog_store(tr):
    return [e for e in tr.events if e["e"] == "mk"]


def edges(job, rng, idx):
    """probabilities of exactly 0 and 1"""
    tr = Trace(f"edge{idx}")
    for dist, ps in (("bernoulli", (0.0, 1.0)), ("binomial", (0.0, 1.0)), ("geometric", (1.0,)), ("negative_binomial", (0.0,)), ("categorical", (0.0,))):
        for p in ps:
            for via in ("ctor", "set"):
                n = fill(leaf_node([0], 2, 1, dist), rng)
                n["_variant"] = 0
                col = len(n["par"][0][0][0]) - 1
                if dist == "categorical":
                    n["par"][0][0][0] = [0.0, 0.25, 0.75]
                else:
                    n["par"][0][0][0][col] = p
                if via == "ctor":
                    Prog(tr, [n])
                    prog = Prog(tr, [n])
                    m = prog.mods[0]
                else:
                    base = fill(leaf_node([0], 2, 1, dist), rng)
                    base["_variant"] = 0
                    if dist not in ("categorical",):
                        for c in range(2):
                            base["par"][0][0][c][:col] = n["par"][0][0][c][:col]
                    prog = Prog(tr, [base])
                    m = prog.mods[0]
                    v = torch.tensor(n["par"]).permute(1, 2, 0, 3)
                    v = v if dist == "categorical" else v[..., col]
                    m.probs = v
                    tr.add("upd", "edge", j=len(prog_store(tr)), node=to_spec(n))
                j = len(prog_store(tr))
                tr.add("read", "edge:" + dist, j=j, node={"par": nums(read_leaf(m, n)["par"]), "op": "leaf"})
                rows = [[float(x)] for x in range(3 if dist == "categorical" else (2 if dist == "bernoulli" else 4))]
                tr.add("llabs", "edge:" + dist, m=j, rows=nums(rows), out=out_tokens(m.log_likelihood(torch.tensor(rows))))
    return tr


def main(check):
    qk = check.quick()
    L_ = 14
    ps = corpus(check, 0.8 if qk else 4, seed=14) + directed_programs(check.rng, not qk)
    hs = histories(check, "ParamGen", f"MaxLen = {L_}", len(ps), L_, check.seed)
    ts = pmap(replay, [(p, h) for p, h in zip(ps, hs * (1 + len(ps) // max(1, len(hs))))], check.seed)
    ts += pmap(shared, [[dict(leaf_node([0], 2, 2, d), _variant=v)] for d in sorted(PARS) + ["categorical"] for v in (0, 1)], check.seed + 1)
    ts += pmap(invalid, [[d] for d in sorted(BAD)], check.seed + 2)
    ts += pmap(edges, [0] * (1 if qk else 5), check.seed + 3)
    check.run("LibTrace", ts)
