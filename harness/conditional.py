"""Circuits over conditional leaves: parameters looked up from evidence columns, one specification trace per evidence value.

A conditional leaf takes its parameters from a function of other columns.  For every fixed value of those columns the
circuit is an ordinary one, so it is judged by the same specification: the program is adopted once per evidence value,
with the parameters the lookup table holds for it, and the rows of a batch are distributed over these traces."""
from sampling import *

FAMS = ["normal", "log_normal", "laplace", "exponential", "gamma", "bernoulli", "geometric", "categorical", "binomial",
        "negative_binomial", "poisson"]
CLS = {"normal": L.Normal, "log_normal": L.LogNormal, "laplace": L.Laplace, "exponential": L.Exponential, "gamma": L.Gamma,
       "bernoulli": L.Bernoulli, "geometric": L.Geometric, "categorical": L.Categorical, "binomial": L.Binomial,
       "negative_binomial": L.NegativeBinomial, "poisson": L.Poisson}
STATES = 4


class Lookup(torch.nn.Module):
    """(batch, 2) evidence -> dictionary of (batch, features, channels, repetitions[, categories]) parameters"""

    def __init__(self, tables):
        super().__init__()
        self.t = tables

    def forward(self, evidence):
        k = (evidence[:, 0] + 2 * evidence[:, 1]).long()
        return {name: t[k] for name, t in self.t.items()}


def tables_of(dist, pars, how):
    """pars[e][r][f][c][k] -> named tables (e, f, c, r[, k])"""
    p = T(pars).permute(0, 2, 3, 1, 4).contiguous()
    a, b = p[..., 0].contiguous(), p[..., 1].contiguous() if p.shape[-1] > 1 else None
    prob = (lambda x: {"logits": torch.logit(x)}) if how else (lambda x: {"probs": x})
    if dist in ("normal", "log_normal", "laplace"):
        return {"loc": a, "scale": b}
    if dist == "gamma":  # documented: conditional gamma leaves take logarithms
        return {"concentration": a.log(), "rate": b.log()}
    if dist in ("exponential", "poisson"):
        return {"rate": a}
    if dist == "categorical":
        return {"logits": p.log() - 0.5} if how else {"probs": p}
    if dist in ("bernoulli", "geometric"):
        return prob(a)
    return dict(total_count=a, **prob(b))


class Cond:
    """One circuit with conditional leaves and its STATES ordinary readings."""

    def __init__(self, nodes, rng, name, obs=False):
        self.front = rng.random() < 0.5  # evidence columns before or after the modelled ones
        sh = 2 if self.front else 0
        self.vars = sorted({v + sh for n in nodes for v in n.get("scope", [])})
        self.nv = self.vars[-1] + 1
        self.evcols = [0, 1] if self.front else [self.nv, self.nv + 1]
        if rng.random() < 0.5:
            self.evcols.reverse()
        self.width = self.nv if self.front else self.nv + 2
        self.tr0 = Trace(name)
        self.mods, self.trs = [], [Trace(f"{name}e{e}") for e in range(STATES)]
        self.progs = [Prog(t, []) for t in self.trs]
        for n in nodes:
            n = dict(n)
            if n["op"] == "leaf":
                n["scope"] = [v + sh for v in n["scope"]]
                blank = dict(n, par=[[["?" for _ in f] for f in r] for r in n["par"]])
                pars = [fill(blank, rng)["par"] for _ in range(STATES)]
                sc = Scope(n["scope"], evidence=list(self.evcols))
                kw = dict(out_channels=len(pars[0][0][0]), num_repetitions=len(pars[0]),
                          parameter_fn=Lookup(tables_of(n["dist"], pars, rng.random() < 0.5)))
                if n["dist"] == "categorical":
                    kw["K"] = CAT_K
                if n["dist"] in ("binomial", "negative_binomial"):
                    kw["total_count"] = torch.full((len(n["scope"]), kw["out_channels"], kw["num_repetitions"]), 3.0)
                ok_, m = self.tr0.attempt("mkcond:" + n["dist"], lambda: CLS[n["dist"]](sc, **kw))
                if not ok_:
                    break
                reads = [dict(n, par=p, aux=[]) for p in pars]
            else:
                ok_, m = self.tr0.attempt("mk:" + kind(n), lambda: mk_node(n, self.mods))
                if not ok_:
                    break
                if n["op"] == "fact":
                    n = dict(n, groups=observed_groups(m, self.mods[n["ins"][0] - 1]))
                reads = [n] * STATES
            self.mods.append(m)
            for pr, rd in zip(self.progs, reads):
                pr.mods.append(m)
                pr.nodes.append(rd)
                ev = {}
                if obs and pr is self.progs[0]:
                    fs = not any(tainted(pr.nodes, pr.nodes[j - 1]) for j in below(pr.nodes, len(pr.nodes)))
                    ok_, o = pr.tr.attempt("obscond:" + kind(n), lambda: observe(m, fs))
                    ev = {"obs": o} if ok_ else {}
                pr.tr.add("mk", "mk:" + kind(n), node=to_spec(rd), **ev)
            if obs:
                self.tr0.add("eq", "obscond:" + kind(n), clause="reported_evidence", a=sorted(map(int, m.scope.evidence)), b=sorted(self.evcols))
        self.nodes = self.progs[0].nodes
        self.vt = var_types(self.nodes)

    def row(self, rng, p=0.0):
        """a row (values of some variables missing with probability p) and its evidence value"""
        r = [NAN] * self.width
        full = rand_row(rng, self.vt, max(self.vt) + 1)
        for v in self.vars:
            if rng.random() >= p:
                r[v] = full[v]
        return r, self.set(rng, r)

    def set(self, rng, r):
        e = rng.randrange(STATES)
        r[self.evcols[0]], r[self.evcols[1]] = float(e % 2), float(e // 2)
        return e

    def traces(self):
        return [self.tr0] + self.trs


def jobs(check, k, seed, fams=FAMS):
    ps = corpus(check, k, disc=14, mixed=26, grid=4, splits=6, seed=seed, contdists=fams)
    ps += [p for p in directed_programs(check.rng, not check.quick()) if check.rng.random() < (0.25 if check.quick() else 1)]
    good = lambda n: n["op"] != "leaf" or n["dist"] in fams
    return [p for p in ps if all(good(n) for n in p) and not any(n.get("_groups") for n in p)]


def likelihoods(p, rng, missing, n_rows=7):
    """record the likelihood of mixed batches at every node"""
    for i, m in enumerate(p.mods, 1):
        tag = "condll:" + kind(p.nodes[i - 1])
        rows = [p.row(rng, rng.choice(missing)) for _ in range(n_rows if i % 3 else 1)]
        x = torch.tensor([r for r, _ in rows])
        ok, out = p.tr0.attempt(tag, lambda: m.log_likelihood(x))
        if not ok:
            continue
        for e, pr in enumerate(p.progs):
            at = [b for b, (_, s) in enumerate(rows) if s == e]
            if at:
                pr.tr.add("ll", tag, m=i, rows=nums([rows[b][0] for b in at]), out=out_tokens(out[at]), rows_after=nums(x[at]))


def refusals(p, rng, what):
    """what conditional leaves do not support is refused"""
    from spflow.meta.data.interval_evidence import IntervalEvidence
    for m, n in zip(p.mods, p.nodes):
        d = torch.tensor([p.row(rng)[0] for _ in range(4)])
        if what == "interval":
            p.tr0.must_raise("condiv:" + kind(n), lambda: m.log_likelihood(IntervalEvidence(d.clone(), d + 1)))
        elif n["op"] != "leaf":
            continue
        elif what == "marginalize":
            p.tr0.must_raise("condmarg:" + kind(n), lambda: m.marginalize([rng.choice(n["scope"])]))
        else:
            p.tr0.must_raise("condfit:" + kind(n), lambda: m.maximum_likelihood_estimation(d))


def groups(p, rng, i, evidence, k):
    out = []
    for _ in range(k):
        e = rng.randrange(STATES)
        g = Group(rng, p.progs[e], i, p.vt, p.width, evidence, False)
        g.e = e
        g.row[p.evcols[0]], g.row[p.evcols[1]] = float(e % 2), float(e // 2)
        out.append(g)
    return out


def samples(p, rng, i, n, evidence, k=3, tag="condsmp:", diff=None):
    m = p.mods[i - 1]
    tag += flavour(p.nodes, i)
    if "multi_feature_rmix" in tag:  # refused: a recorded finding of the ordinary circuits
        return
    gs = [g for g in groups(p, rng, i, evidence, k) if not evidence or possible(m, p.progs[g.e], i, g)]
    if not gs:
        return
    n *= len(gs)
    F, C, _ = shape_of(p.nodes, p.progs[0], i)

    def call():
        kw = {"return_leaf_params": rng.random() < 0.3}
        idx, ctx = context(gs, n, **kw) if diff is None else one_hot_context(gs, n, C, m.out_shape.repetitions, tau=diff, **kw)
        data = torch.tensor([gs[g].row for g in idx])
        cache = Cache()
        if evidence:
            m.log_likelihood(data, cache=cache)
        return idx, m._sample(data=data, sampling_ctx=ctx, cache=cache)
    with torch.no_grad():
        ok, res = p.tr0.attempt(tag, call)
    if not ok:
        return
    idx, out = res[0], res[1].detach().numpy()
    p.tr0.add("eq", tag, clause="number_of_rows", a=str(len(out)), b=str(n))
    for g in range(len(gs)):
        count_event(p.progs[gs[g].e].tr, rng, tag, i, gs[g], p.vt, out[idx == g], soft=diff is not None)


def mpes(p, rng, i, post, k=6, tag="condmpe:"):
    m = p.mods[i - 1]
    tag += flavour(p.nodes, i)
    if "multi_feature_rmix" in tag:  # refused: a recorded finding of the ordinary circuits
        return
    gs = [g for g in groups(p, rng, i, post or rng.random() < 0.7, k) if not post or possible(m, p.progs[g.e], i, g)]
    if not gs:
        return
    n = len(gs) + rng.randrange(2)

    def call():
        idx, ctx = context(gs, n, is_mpe=True)
        data = torch.tensor([gs[g].row for g in idx])
        cache = Cache()
        if post:
            m.log_likelihood(data, cache=cache)
        return idx, m._sample(data=data, sampling_ctx=ctx, cache=cache)
    with torch.no_grad():
        ok, res = p.tr0.attempt(tag, call)
    if not ok:
        return
    idx, out = res[0], res[1].detach().numpy()
    for b in range(n):
        g = gs[idx[b]]
        p.progs[g.e].tr.add("mpe", tag, m=i, r=g.r + 1, ch=[c + 1 for c in g.ch], mask=g.mask, ev=nums(g.row), out=nums(out[b]), post=post)
