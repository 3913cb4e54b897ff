"""Shared drivers for ancestral sampling, conditional sampling, MPE and differentiable sampling."""
from circuits import *
from spflow.utils.sampling_context import SamplingContext
from spflow.utils.cache import Cache

NAN = float("nan")
POSITIVE = ("exponential", "gamma", "log_normal")
COUNTING = ("geometric", "poisson", "negative_binomial")


def inside(rng, d):
    """an evidence value for family d"""
    if d == "uniform":  # at times outside the interval of some of the leaves
        a = 1.9 if rng.random() < 0.4 else 0.49
        return round(rng.uniform(-a, a), 3)
    if d == "histogram":
        return round(rng.uniform(-2.99, 2.99), 3)
    return val_of(rng, d)


def cells(rng, d):
    """a partition of the domain of family d into boxes [(lo, hi)] (nan = unbounded)"""
    if d in DOMSIZE:
        return [(float(k), float(k)) for k in range(DOMSIZE[d])]
    if d in COUNTING:
        return rng.choice([[(0.0, 0.0), (1.0, 1.0), (2.0, 3.0), (4.0, NAN)], [(0.0, 0.0), (1.0, 1.0), (2.0, 3.0), (4.0, NAN)],
                           [(0.0, 2.0), (3.0, 11.0), (12.0, 40.0), (41.0, NAN)]])
    if d in POSITIVE:
        z = rng.choice([1, 1, 1, 0.05, 20])
        a, b = sorted((round(z * rng.uniform(0.2, 1.2), 3), round(z * rng.uniform(1.3, 3), 3)))
        return [(NAN, a), (a, b), (b, NAN)]
    if d == "uniform":
        a, b = sorted((round(rng.uniform(-1.6, 0), 3), round(rng.uniform(0, 1.6), 3)))
        return [(NAN, a), (a, b), (b, NAN)]
    z = rng.choice([1, 1, 1, 20])
    a, b = sorted((round(z * rng.uniform(-1.5, 0), 3), round(z * rng.uniform(0.05, 1.5), 3)))
    return [(NAN, a), (a, b), (b, NAN)]


def cell_index(col, d, cs):
    """index of the cell every sampled value falls into; -1 = outside the domain of the family"""
    out = np.full(len(col), -1)
    discrete = d in DOMSIZE or d in COUNTING
    for k, (lo, hi) in enumerate(cs):
        ok = np.ones(len(col), bool)
        if lo == lo:
            ok &= col >= lo
        if hi == hi:
            ok &= (col <= hi) if discrete else (col < hi)
        out[ok & (out < 0)] = k
    bad = ~np.isfinite(col)
    if discrete:
        bad |= (col != np.round(col)) | (col < 0)
    if d in POSITIVE:
        bad |= col < 0
    out[bad] = -1
    return out


def excluding_programs(rng, k):
    """circuits whose components give disjoint regions density: evidence rules branches out entirely"""
    out = []
    slots = [(-1.9, -1.1), (-0.9, -0.1), (0.1, 0.9), (1.1, 1.9)]

    def leaf(scope, C, R):
        n = leaf_node(scope, C, R, "uniform")
        n["par"] = [[[list(rng.choice(slots)) for _ in range(C)] for _ in scope] for _ in range(R)]
        return n
    for _ in range(k):
        C, R = rng.randint(2, 3), rng.randint(1, 2)
        F = rng.choice((1, 2, 2))
        vs = list(range(F))
        two = [leaf(vs, C, R), leaf(vs, C, R)]
        idx = {"kind": "idx", "k": 2, "idx": [[0], [1]]}
        cons = {"kind": "cons", "k": 2, "idx": []}
        out += [two + [node("sum", [1], w=q(R, F, C, C)), node("sum", [2], w=q(R, F, C, C)), node("esum", [3, 4], w=q(R, F, C, 2, 2))],
                two + [node("prod", [1]), node("prod", [2]), node("sum", [3], w=q(R, 1, 2, C)), node("sum", [4], w=q(R, 1, 2, C)),
                       node("sum", [5, 6], w=q(R, 1, 2, 4)), node("esum", [5, 6], w=q(R, 1, 2, 1, 2))],
                two + [node("cat2", [1, 2]), node("sum", [3], w=q(R, F, 2, 2 * C))],
                [leaf([0], C, R), node("sum", [1], w=q(R, 1, 2, C)), node("rmix", [2], w=q(1, 2, R))],
                [leaf([0], C, R), leaf([1], C, R), node("einsum", [1, 2], w=q(R, 1, 2, C, C)), node("linsum", [1, 2], w=q(R, 1, 2, C)),
                 node("sum", [3, 4], w=q(R, 1, 2, 4)), node("esum", [3, 4], w=q(R, 1, 2, 2, 2))],
                [leaf([0], C, R), leaf([1], C, R), leaf([0], C, R), node("einsum", [1, 2], w=q(R, 1, 2, C, C)), node("einsum", [3, 2], w=q(R, 1, 2, C, C)),
                 node("sum", [4, 5], w=q(R, 1, 2, 4)), node("linsum", [1, 2], w=q(R, 1, 2, C)), node("linsum", [3, 2], w=q(R, 1, 2, C)),
                 node("esum", [7, 8, 4], w=q(R, 1, 2, 2, 3))],
                [leaf([0, 1], C, R), node("einsum", [1], cons, w=q(R, 1, 2, C, C)), node("linsum", [1], idx, w=q(R, 1, 2, C)),
                 node("sum", [2, 3], w=q(R, 1, 2, 4))],
                [leaf(range(4), C, R), node("sconv", [1], ksize=2, w=q(R, 4, 2, C), kpos=[1, 2, 3, 4]),
                 node("pconv", [2], kern=[2, 2, 0, 0], groups=[[1, 2, 3, 4]]), node("sum", [3], w=q(R, 1, 2, 2))],
                [leaf(range(3), C, R), node("fact", [1], depth=1, groups=[[]] * R), node("sum", [2], w=q(R, 2, 2, C)), node("prod", [3]),
                 node("sum", [4], w=q(R, 1, 1, 2)), node("rmix", [5], w=q(1, 1, R))]]
        # evidence far in the tail of the branches that remain
        nl = leaf_node([1], C, R, "normal")
        nl["par"] = [[[[round(rng.uniform(-1, 1), 2), rng.choice((0.02, 0.04))] for _ in range(C)]] for _ in range(R)]
        bl = leaf_node([2], C, R, "bernoulli")
        tail = [leaf([0], C, R), nl, bl]
        out += [tail + [node("prod", [1, 2, 3]), node("sum", [4], w=q(R, 1, 2, C)), node("rmix", [5], w=q(1, 2, R))],
                tail + [node("eprod", [2, 3]), node("einsum", [1, 4], w=q(R, 1, 2, C, C)), node("linsum", [1, 4], w=q(R, 1, 2, C)),
                        node("esum", [5, 6], w=q(R, 1, 2, 2, 2))]]
    for p in out:
        for j, n in enumerate(p):
            v = n.get("_variant", rng.randint(0, 1))
            p[j] = fill(n, rng)
            p[j]["_variant"] = v
    return out


def tree_ok(nodes, i):
    """a multi-variable tree leaf may only be reached through products that keep it whole"""
    for j in below(nodes, i) | {i}:
        n = nodes[j - 1]
        if n["op"] == "leaf" or n["op"] == "prod":
            continue
        if any(nodes[k - 1].get("dist") == "cltree" and len(nodes[k - 1]["scope"]) > 1 for k in n["ins"]):
            return False
    return True


def is_tree(nodes, i):
    return nodes[i - 1].get("dist") == "cltree"


def shape_of(nodes, prog, i):
    s = prog.mods[i - 1].out_shape
    return s.features, s.channels, 1 if nodes[i - 1]["op"] == "rmix" else s.repetitions


def routing(rng, prog, i, api=False, masks=True):
    F, C, R = shape_of(prog.nodes, prog, i)
    if api:
        return 0, [0] * F, [1] * F
    ch = [rng.randrange(C)] * F if is_tree(prog.nodes, i) or rng.random() < 0.2 else [rng.randrange(C) for _ in range(F)]
    mask = [1] * F
    if masks and F > 1 and not is_tree(prog.nodes, i) and rng.random() < 0.4:
        mask = [int(rng.random() < 0.6) for _ in range(F)]
        if not any(mask):
            mask[rng.randrange(F)] = 1
    return rng.randrange(R), ch, mask


def feature_vars(prog, i, r):
    """the variables of each output feature, from the program itself (not from the module)"""
    memo = {}

    def fs(j):
        if j in memo:
            return memo[j]
        n = prog.nodes[j - 1]
        ins = [fs(k) for k in n["ins"]]
        pick = lambda t, q: t[q if len(t) > 1 else 0]
        op = n["op"]
        if op == "leaf":
            R = len(n["cpt"]) if n["dist"] == "cltree" else len(n["par"])
            out = [[{v} for v in n["scope"]] for _ in range(R)]
        else:
            R = {"rmix": 1, "esum": len(n.get("w", [])), "einsum": len(n.get("w", [])), "linsum": len(n.get("w", [])),
                 "fact": len(n.get("groups", []))}.get(op) or max([len(t) for t in ins] + ([len(n["w"])] if op in ("sum", "sconv") else []))
            out = []
            for q in range(R):
                cat = [s for t in ins for s in pick(t, q)]
                sp = n.get("split", NOSPLIT)
                if op in ("cat1",):
                    o = cat
                elif op == "prod":
                    o = [set().union(*cat)]
                elif op in ("eprod", "oprod", "einsum", "linsum"):
                    F = len(pick(ins[0], q))
                    if sp["kind"] == "none":
                        parts = [pick(t, q) for t in ins]
                    elif sp["kind"] == "idx":
                        parts = [[pick(ins[0], q)[x] for x in g] for g in sp["idx"]]
                    elif sp["kind"] == "cons":
                        w = F // sp["k"]
                        parts = [pick(ins[0], q)[k * w:(k + 1) * w] for k in range(sp["k"])]
                    else:
                        parts = [pick(ins[0], q)[k::sp["k"]] for k in range(sp["k"])]
                    o = [set().union(*z) for z in zip(*parts)]
                elif op == "fact":
                    o = [set().union(*[cat[x - 1] for x in g]) for g in n["groups"][q]]
                elif op == "pconv":
                    o = [set().union(*[cat[x - 1] for x in g]) for g in n["groups"]]
                else:
                    o = list(pick(ins[0], q))
                out.append(o)
        memo[j] = out
        return out
    t = fs(i)
    return t[r if len(t) > 1 else 0]


def flavour(nodes, i):
    """tag of the node; circuits mixing the repetitions of several features at once are a class of their own"""
    for j in below(nodes, i) | {i}:
        if nodes[j - 1]["op"] == "rmix" and len(nodes[j - 1]["w"]) > 1:
            return "multi_feature_rmix"
    return kind(nodes[i - 1])


class Group:
    """rows of one batch that share routing and evidence"""

    def __init__(self, rng, prog, i, vt, nv, evidence, api, masks=True):
        self.r, self.ch, self.mask = routing(rng, prog, i, api, masks)
        fv = feature_vars(prog, i, self.r)
        self.vars = sorted(set().union(*[s for s, k in zip(fv, self.mask) if k]))
        every = sorted(set().union(*fv))
        self.row = [rng.choice([NAN, 5.0]) for _ in range(nv)]
        for v in every:
            self.row[v] = NAN
            if evidence and rng.random() < 0.45:
                self.row[v] = inside(rng, vt[v])
        # columns of features that are not requested may be missing or not: they must stay as they are
        self.tables = []

    def free(self):
        return [v for v in self.vars if self.row[v] != self.row[v]]


def context(groups, n, **kw):
    G = len(groups)
    idx = np.arange(n) % G
    ch = torch.tensor([groups[g].ch for g in idx], dtype=torch.long)
    mask = torch.tensor([groups[g].mask for g in idx], dtype=torch.bool)
    rep = torch.tensor([groups[g].r for g in idx], dtype=torch.long)
    return idx, SamplingContext(channel_index=ch, mask=mask, repetition_index=rep, **kw)


def one_hot_context(groups, n, C, R, **kw):
    G = len(groups)
    idx = np.arange(n) % G
    F1 = torch.nn.functional.one_hot
    ch = F1(torch.tensor([groups[g].ch for g in idx]), C).to(torch.get_default_dtype())
    rep = F1(torch.tensor([groups[g].r for g in idx]), R).to(torch.get_default_dtype())
    mask = torch.tensor([groups[g].mask for g in idx], dtype=torch.bool)
    return idx, SamplingContext(channel_index=ch, mask=mask, repetition_index=rep, is_differentiable=True, **kw)


def possible(m, prog, i, g):
    """does the routed output give the evidence positive probability?"""
    with torch.no_grad():
        ll = m.log_likelihood(torch.tensor([g.row]))
    if ll.dim() == 3:
        ll = ll.unsqueeze(-1)
    return all(torch.isfinite(ll[0, f, c, min(g.r, ll.shape[3] - 1)]) for f, c in enumerate(g.ch) if g.mask[f])


def count_event(tr, rng, tag, i, g, vt, block, maxcells=18, tables=2, soft=False):
    """block: (n, nv) array of the sampled rows of group g"""
    row = np.array(g.row)
    n = len(block)
    free = g.free()
    fixed = [v for v in range(len(row)) if v not in free]
    kept = all(np.array_equal(block[:, v], np.full(n, row[v]), equal_nan=True) for v in fixed)
    filled = not np.isnan(block[:, free]).any()
    for _ in range(tables if len(free) > 1 else 1):
        vs, size, cs = [], 1, {}
        for v in rng.sample(free, len(free)):
            c = cells(rng, vt[v])
            if size * len(c) <= maxcells:
                vs.append(v)
                cs[v] = c
                size *= len(c)
        idxs = {v: cell_index(block[:, v], vt[v], cs[v]) for v in vs}
        ok = np.ones(n, bool)
        code = np.zeros(n, int)
        for v in vs:
            ok &= idxs[v] >= 0
            code = code * len(cs[v]) + idxs[v]
        counts = np.bincount(code[ok], minlength=size)
        lo, hi = [], []
        for combo in itertools.product(*[cs[v] for v in vs]):
            a, b = [NAN] * len(row), [NAN] * len(row)
            for v, (x, y) in zip(vs, combo):
                a[v], b[v] = x, y
            lo.append(nums(a))
            hi.append(nums(b))
        tr.add("smp", tag, m=i, r=g.r + 1, ch=[c + 1 for c in g.ch], mask=g.mask, ev=nums(g.row), vars=g.vars, n=n,
               kept=int(kept), filled=int(filled), lo=lo, hi=hi, counts=[int(c) for c in counts], soft=soft)


def sample_batch(tr, rng, prog, i, vt, nv, n, evidence=False, api=False, groups=2, tag="smp:", diff=None):
    m = prog.mods[i - 1]
    own = hasattr(m, "_has_partial_evidence")
    tag = tag + flavour(prog.nodes, i)
    gs = [Group(rng, prog, i, vt, nv, evidence, api) for _ in range(groups)]
    if evidence:
        gs = [g for g in gs if possible(m, prog, i, g)]
    if not evidence and api:
        gs = gs[:1]
        gs[0].row = [NAN] * nv
    if not gs:
        return
    n = n * len(gs)
    F, C, _ = shape_of(prog.nodes, prog, i)
    R = m.out_shape.repetitions
    rec = {"return_leaf_params": rng.random() < 0.3 and not uses(prog.nodes, i, "cltree")}

    def call():
        if diff is not None:
            idx, ctx = one_hot_context(gs, n, C, R, tau=diff, **rec)
        else:
            idx, ctx = context(gs, n, **rec)
        data = torch.tensor([gs[g].row for g in idx])
        if api and not evidence:
            if rng.random() < 0.3:
                return idx, (m.sample(data=data, return_leaf_params=True)[0] if rec["return_leaf_params"] else m.sample(data=data))
            scope = [int(v) for v in m.scope.query]
            out = m.sample(num_samples=n)
            full = torch.full((n, nv), NAN)
            # one column per variable index, or (for modules of one scope) one column per scope variable
            compact = max(scope) >= out.shape[1]
            full[:, scope if compact else list(range(out.shape[1]))] = out.to(full.dtype)
            return idx, full
        if api and own and rng.random() < 0.5:  # these models read the evidence off the data they complete
            return idx, (m.sample(data=data, return_leaf_params=True)[0] if rec["return_leaf_params"] else m.sample(data=data))
        if api:
            return idx, (m.sample_with_evidence(data, return_leaf_params=True)[0] if rec["return_leaf_params"] else m.sample_with_evidence(data))
        cache = Cache()
        if evidence:
            m.log_likelihood(data, cache=cache)
        return idx, m._sample(data=data, sampling_ctx=ctx, cache=cache)
    with torch.no_grad():
        ok, res = tr.attempt(tag, call)
    if not ok:
        return
    idx, out = res
    out = out.detach().numpy()
    tr.add("eq", tag, clause="number_of_rows", a=str(len(out)), b=str(n))
    for k, g in enumerate(gs):
        count_event(tr, rng, tag, i, g, vt, out[idx == k], soft=diff is not None)


def mpe_batch(tr, rng, prog, i, vt, nv, how, groups=6, tag="mpe:", diff=None, blank=False):
    """how: 'weights' (no evidence likelihoods), 'posterior' (likelihoods cached), 'mpe'/'evidence' (public calls)"""
    m = prog.mods[i - 1]
    tag = tag + flavour(prog.nodes, i)
    api = how in ("mpe", "evidence")
    gs = [Group(rng, prog, i, vt, nv, not blank and (rng.random() < 0.8 or how == "posterior"), api) for _ in range(groups)]
    own = how == "mpe" and hasattr(m, "_has_partial_evidence")  # these models read the evidence off the data they complete
    post = how in ("posterior", "evidence") or own
    if post:
        gs = [g for g in gs if possible(m, prog, i, g)]
    if not gs:
        return
    n = len(gs) + rng.randrange(2)
    F, C, _ = shape_of(prog.nodes, prog, i)
    R = m.out_shape.repetitions
    rec = {"return_leaf_params": rng.random() < 0.3 and not uses(prog.nodes, i, "cltree")}

    def call():
        idx, ctx = context(gs, n, is_mpe=True, **rec) if diff is None else one_hot_context(gs, n, C, R, is_mpe=True, tau=diff, **rec)
        data = torch.tensor([gs[g].row for g in idx])
        if how == "mpe":
            return idx, m.mpe(data=data)
        if how == "evidence":
            return idx, m.sample_with_evidence(data, is_mpe=True)
        cache = Cache()
        if post:
            m.log_likelihood(data, cache=cache)
        return idx, m._sample(data=data, sampling_ctx=ctx, cache=cache)
    with torch.no_grad():
        ok, res = tr.attempt(tag, call)
        if not ok:
            return
        torch.randn(rng.randrange(1, 9))
        ok, res2 = tr.attempt(tag, call)
        if not ok:
            return
    idx, out = res[0], res[1].detach().numpy()
    tr.add("eq", tag, clause="not_deterministic", a=nums(out), b=nums(res2[1].detach().numpy()))
    for k in range(n):
        g = gs[idx[k]]
        tr.add("mpe", tag, m=i, r=g.r + 1, ch=[c + 1 for c in g.ch], mask=g.mask, ev=nums(g.row), out=nums(out[k]), post=post)


def grad_event(tr, rng, prog, i, vt, nv, n, tau, evidence):
    """gradients that a differentiable batch of samples sends to the parameters of every circuit node"""
    m = prog.mods[i - 1]
    tag = ("gradev:" if evidence else "grad:") + flavour(prog.nodes, i)
    g = Group(rng, prog, i, vt, nv, evidence, False, masks=False)
    if evidence and not possible(m, prog, i, g):
        return
    if not evidence:
        g.row = [NAN] * nv
    F, C, _ = shape_of(prog.nodes, prog, i)
    nodes = sorted(below(prog.nodes, i) | {i})
    for j in nodes:
        for p in prog.mods[j - 1].parameters():
            p.grad = None

    def call():
        _, ctx = one_hot_context([g], n, C, m.out_shape.repetitions, tau=tau)
        data = torch.tensor([g.row for _ in range(n)])
        cache = Cache()
        if evidence:
            m.log_likelihood(data, cache=cache)
        out = m._sample(data=data, sampling_ctx=ctx, cache=cache)
        loss = (torch.nan_to_num(out) * torch.randn(n, nv)).sum()
        if loss.requires_grad:
            loss.backward()
    ok, _ = tr.attempt(tag, call)
    if not ok:
        return
    grads = []
    for j in nodes:
        ps = [p for p in prog.mods[j - 1].parameters(recurse=False) if p.requires_grad]
        if not ps:
            continue
        gs = [p.grad for p in ps]
        st = "none" if all(x is None for x in gs) else \
            "nan" if any(x is not None and not torch.isfinite(x).all() for x in gs) else \
            "ok" if any(x is not None and (x != 0).any() for x in gs) else "zero"
        grads.append({"j": j, "st": st})
        for p in ps:
            p.grad = None
    # with evidence only finiteness is a guarantee: observed variables send no gradients
    tr.add("grad", tag, m=i, grads=[x for x in grads if not evidence or x["st"] == "nan"])
