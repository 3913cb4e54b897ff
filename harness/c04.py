"""C04: interval evidence gives the probability of the box."""
from circuits import *
import conditional
from spflow.meta.data.interval_evidence import IntervalEvidence
from spflow.utils.range_inference import log_likelihood_interval

IVOK = ["normal", "gamma", "exponential", "laplace", "log_normal", "uniform", "bernoulli", "categorical"]
IVNO = ["poisson", "geometric", "binomial", "negative_binomial", "hypergeometric", "histogram"]
NAN = float("nan")
DISC = ("bernoulli", "categorical")


def bounds(rng, d):
    """one (lo, hi) pair for a variable of family d"""
    k = rng.randint(0, 9)
    if k == 0:
        return NAN, NAN
    if d in DISC:
        n = DOMSIZE[d]
        a = rng.randint(0, n - 1)
        if k == 1:
            return float(a), float(a)
        if k == 2:
            return rng.choice([NAN, -math.inf]), float(rng.randint(0, n - 1))
        if k == 3:
            return float(rng.randint(0, n - 1)), rng.choice([NAN, math.inf])
        if k == 4:
            return -1.5, float(n + 1)
        if k == 5:
            lo = rng.choice([0.5, -0.5, 0.25, 1.5])
            return lo, lo + rng.choice([1.0, 0.75, 1.5])
        if k == 6:  # no integer inside / a real box around one integer / beyond the support
            lo = rng.choice([-0.8, 0.2, 0.4, 1.2, 1.6, n - 0.7])
            return lo, lo + rng.choice([0.1, 0.3, 1.0])
        return float(a), float(rng.randint(a, n - 1))
    z = rng.choice([1, 1, 1, 10])
    x = sorted((round(z * rng.uniform(-2.5, 3), 3), round(z * rng.uniform(-2.5, 3.5), 3)))
    if k == 2:
        return NAN, x[1]
    if k == 3:
        return x[0], NAN
    if k == 4:
        return -math.inf, x[1]
    if k == 5:
        return x[0], math.inf
    return x[0], max(x[1], x[0] + 0.01)


def iv_event(tr, m, i, lo, hi, tag, api):
    a, b = torch.tensor(lo), torch.tensor(hi)
    fn = (lambda: log_likelihood_interval(m, a, b)) if api else (lambda: m.log_likelihood(IntervalEvidence(low=a, high=b)))
    ok, out = tr.attempt(tag, fn)
    if ok:
        tr.add("iv", tag, m=i, lo=nums(lo), hi=nums(hi), out=out_tokens(out))
        tr.add("eq", tag, clause="bounds_modified", a=[nums(lo), nums(hi)], b=[nums(a), nums(b)])


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    for i in range(1, len(prog.mods) + 1):
        rows = []
        for _ in range(8):
            rows.append([bounds(rng, vt[v]) if v in vt else (NAN, NAN) for v in range(nv)])
        # the degenerate box of a discrete circuit is a complete row
        if all(d in DISC for d in vt.values()):
            pt = rand_row(rng, vt, nv)
            rows.append([(x, x) for x in pt])
        iv_event(tr, prog.mods[i - 1], i, [[c[0] for c in r] for r in rows], [[c[1] for c in r] for r in rows],
                 "iv:" + kind(prog.nodes[i - 1]), rng.random() < 0.5)
    return tr


def malformed(rng):
    tr = Trace("malformed")
    prog = Prog(tr, [fill({"op": "leaf", "ins": [], "dist": "normal", "scope": [0, 1], "aux": [],
                           "par": [[[["?"]], [["?"]]]]}, rng)])
    m = prog.mods[0]
    t = torch.tensor
    bad = {
        "shape": (t([[0., 1.]]), t([[0., 1.], [2., 3.]])),
        "width": (t([[0., 1.]]), t([[0., 1., 2.]])),
        "dims1": (t([0., 1.]), t([1., 2.])),
        "dims3": (t([[[0., 1.]]]), t([[[1., 2.]]])),
        "swapped": (t([[0., 1.]]), t([[1., 0.5]])),
        "swapped_row2": (t([[0., NAN], [0., 1.]]), t([[1., NAN], [-1e-3, 2.]])),
        "swapped_last": (t([[0., 0.]] * 5), t([[1., 1.]] * 4 + [[1., -1.]])),
        "pos_inf_low": (t([[math.inf, 0.]]), t([[1., 1.]])),
        "neg_inf_high": (t([[0., 0.]]), t([[1., -math.inf]])),
    }
    for k, (lo, hi) in bad.items():
        tr.must_raise("reject:" + k, lambda: log_likelihood_interval(m, lo, hi))
        tr.must_raise("reject_ctor:" + k, lambda: IntervalEvidence(low=lo, high=hi))
    for d in IVNO:
        n = fill({"op": "leaf", "ins": [], "dist": d, "scope": [0], "aux": [], "par": [[[["?"]]]]}, rng)
        leaf = mk_node(n, [])
        tr.must_raise("unsupported:" + d, lambda: log_likelihood_interval(leaf, t([[0.]]), t([[1.]])))
    return tr


def cond(nodes, rng, idx):
    p = conditional.Cond(nodes, rng, f"cond{idx}")
    conditional.refusals(p, rng, "interval")
    return p.traces()


def main(check):
    ops = ALLOPS.replace(" cltree", "")
    ps = corpus(check, 1 if check.quick() else 6, seed=4, mixed=60, contdists=IVOK, ops=ops)
    ps += [p for p in directed_programs(check.rng, not check.quick()) + family_programs(check.rng) * (1 if check.quick() else 4)
           if all(n.get("dist", "normal") in IVOK for n in p)]
    cs = [t for q in pmap(cond, conditional.jobs(check, 0.2, 104), check.seed + 1) for t in q]
    check.run("LibTrace", cs + pmap(replay, ps, check.seed) + [malformed(check.rng)])
