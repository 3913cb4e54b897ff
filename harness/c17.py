"""C17: classifier outputs are the Bayes posteriors of the class mixture."""
import numpy
from importer import *
from sampling import *
import c24

from spflow.exceptions import InvalidParameterError, UnsupportedOperationError
from spflow.interfaces.sklearn import SPFlowClassifier, SPFlowDensityEstimator
from spflow.learn.expectation_maximization import expectation_maximization

AGGS = ["logmeanexp", "logsumexp", "first"]
LABELS = [lambda k: list(range(k)), lambda k: [3 * c - 2 for c in range(k)], lambda k: ["b", "aa", "c", "d"][:k], lambda k: [0.5 * c for c in range(k)]]


def rows_of(rng, vt, nv, k=4):
    out = []
    for _ in range(k):
        p = rng.choice([0, 0.3, 0.6, 1.0])
        out.append([NAN if rng.random() < p else x for x in rand_row(rng, vt, nv)])
    return out


def refresh_all(tr, prog):
    refresh(tr, prog)


class Run:
    def __init__(self, tr, rng, m, prog, i, kind_):
        self.tr, self.rng, self.m, self.prog, self.i, self.kind = tr, rng, m, prog, i, kind_
        self.vt = var_types(prog.nodes)
        self.nv = max(self.vt) + 1

    def rows(self):
        return rows_of(self.rng, self.vt, self.nv)

    def query(self, what, tag, f, read, **kw):
        rows = self.rows()
        x = torch.tensor(rows)
        ok, out = self.tr.attempt(tag, lambda: f(x))
        if ok:
            self.tr.add("post", tag, what=what, m=self.i, rows=nums(rows), out=read(out), **kw)
            if not isinstance(out, numpy.ndarray):
                self.tr.add("eq", tag, clause="input_modified", a=nums(rows), b=nums(x))

    def posterior(self, a):
        self.query("log", "posterior:" + self.kind, self.m.log_posterior, nums)

    def proba(self, a):
        self.query("proba", "proba:" + self.kind, self.m.predict_proba, nums)

    def predict(self, a):
        self.query("class", "predict:" + self.kind, self.m.predict, lambda o: [int(v) for v in o])

    def labelled(self):
        K = self.m.root_node.in_shape.channels
        labels = self.rng.choice(LABELS)(K)
        y = labels + [self.rng.choice(labels) for _ in range(3)]
        self.rng.shuffle(y)
        c = SPFlowClassifier(self.m)
        y = self.rng.choice([list, numpy.array])(y)
        assert c.fit(torch.zeros(len(y), self.nv).numpy(), y) is c
        return c, sorted(set(labels))

    def wrapper(self, a):
        c, labels = self.labelled()
        self.query("proba", "wrapper:" + self.kind, lambda x: c.predict_proba(x.numpy()), nums)

    def labels(self, a):
        c, labels = self.labelled()
        self.query("label", "labels:" + self.kind, lambda x: c.predict(x.numpy()), lambda o: [str(v) for v in o], labels=[str(v) for v in numpy.unique(labels)])
        # labels that cannot be matched with the classes
        few = labels[:-1]
        d = SPFlowClassifier(self.m)

        def go():
            d.fit(torch.zeros(len(few), self.nv).numpy(), few)
            d.predict(torch.tensor(self.rows()).numpy())
        self.tr.must_raise("labels:fewer", go)

    def est(self, **kw):
        e = SPFlowDensityEstimator(self.m, fit_params=False, **kw)
        return e.fit(torch.tensor(self.rows()).numpy())

    def density(self, a):
        ca, ra = self.rng.choice(AGGS), self.rng.choice(AGGS)
        rows = self.rows()
        ok, out = self.tr.attempt("density:" + self.kind, lambda: self.est(channel_agg=ca, repetition_agg=ra).score_samples(torch.tensor(rows).numpy()))
        if ok:
            self.tr.add("score", "density:" + self.kind, m=self.i, rows=nums(rows), cagg=ca, ragg=ra, out=nums(torch.as_tensor(out)))

    def sample(self, a):
        e = self.est()
        before = torch.random.get_rng_state().tolist()
        ok, s = self.tr.attempt("sample:" + self.kind, lambda: [e.sample(3, random_state=a), e.sample(3, random_state=a)])
        if ok:
            self.tr.add("eq", "sample:" + self.kind, clause="not_reproducible", a=nums(torch.as_tensor(s[0])), b=nums(torch.as_tensor(s[1])))
            self.tr.add("eq", "sample:" + self.kind, clause="shape", a=[3, len(self.vt)], b=list(s[0].shape))
            self.tr.add("eq", "sample:" + self.kind, clause="random_state_leaks", a=0, b=int(before != torch.random.get_rng_state().tolist()))

    def likelihood(self, a):
        ll_event(self.tr, self.prog, self.i, self.rows(), "ll:" + self.kind)

    def weights(self, a):
        K = self.m.root_node.in_shape.channels
        w = torch.tensor(simplex(self.rng, K)).reshape(1, K, 1, 1)
        if self.rng.random() < .3:
            self.m.root_node.log_weights = torch.log_softmax(torch.tensor([self.rng.uniform(-40, 40) for _ in range(K)]), 0).reshape(1, K, 1, 1)
        else:
            self.m.root_node.weights = w
        refresh_all(self.tr, self.prog)

    def perturb(self, a):
        with torch.no_grad():
            for p in self.m.parameters():
                p.add_(0.3 * torch.rand_like(p))
        refresh_all(self.tr, self.prog)

    def em(self, a):
        if any(n["op"] == "leaf" and n["dist"] not in ("bernoulli", "categorical", "normal", "poisson") for n in self.prog.nodes):
            return
        rows = [rand_row(self.rng, self.vt, self.nv) for _ in range(8)]
        frozen = self.kind == "naive" and not self.m.learnable_prior
        w0 = self.m.root_node.weights.detach().clone()
        ok, _ = self.tr.attempt("em:" + self.kind, lambda: expectation_maximization(self.m, torch.tensor(rows), max_steps=1))
        if frozen:
            self.tr.add("eq", "em:" + self.kind, clause="fixed_prior_changed", a=nums(w0), b=nums(self.m.root_node.weights))
        refresh_all(self.tr, self.prog)

    def fit(self, a):
        if self.kind != "naive":
            return
        rng, tr, m, prog = self.rng, self.tr, self.m, self.prog
        K = m.num_classes
        nb = rng.randint(4, 7) * K
        targets = [b % K for b in range(nb)]
        if rng.random() < .5:
            targets += [0] * rng.randint(1, 9)
        gone = m.learnable_prior and rng.random() < .3   # a class without rows: only the prior is prescribed
        if gone:
            targets = [t for t in targets if t != K - 1]
        rng.shuffle(targets)
        # rows that tell the classes apart; categorical leaves see every category in every class
        rows = [[(min(x, 1.0) if self.vt.get(v) == "bernoulli" else x) for v, x in enumerate(rand_row(rng, self.vt, self.nv))] for _ in targets]
        kw = {}
        nan = rng.random() < .4
        if nan:
            for k, r in enumerate(rows):
                if k >= 2 * K and rng.random() < .4:
                    r[rng.randrange(self.nv)] = NAN
            seen = {}
            for k, t in enumerate(targets):   # two complete rows per class
                if seen.setdefault(t, 0) < 2:
                    rows[k] = rand_row(rng, self.vt, self.nv)
                    seen[t] += 1
            kw["nan_strategy"] = "ignore"
        bias = rng.random() < .5
        w0 = m.root_node.weights.detach().clone() if K > 1 else None
        y = torch.tensor(targets, dtype=rng.choice([torch.int64, torch.int32]))
        ok, _ = tr.attempt("fit:naive", lambda: m.maximum_likelihood_estimation(torch.tensor(rows), targets=y, bias_correction=bias, **kw))
        if not ok:
            return
        for j, n in enumerate(prog.nodes, 1):
            if n["op"] != "leaf" or gone:
                continue
            after = to_spec(read_leaf(prog.mods[j - 1], n))
            F = len(n["scope"])
            w = [[[[float(t == c) for c in range(K)] for _ in range(F)]] for t in targets]
            tr.add("mle", "fit:naive:" + n["dist"], j=j, rows=nums(rows), bias=bias, w=nums(w), par=after["par"])
        now = m.root_node.weights.detach()
        if m.learnable_prior:
            tr.add("prior", "fit:naive", targets=targets, w=nums(now.flatten()))
        else:
            tr.add("eq", "fit:naive", clause="fixed_prior_changed", a=nums(w0), b=nums(now))
        refresh_all(tr, prog)
        bad = rng.choice([lambda: m.maximum_likelihood_estimation(torch.tensor(rows)),
                          lambda: m.maximum_likelihood_estimation(torch.tensor(rows), targets=y[:-1]),
                          lambda: m.maximum_likelihood_estimation(torch.tensor(rows), targets=y + 1),
                          lambda: m.maximum_likelihood_estimation(torch.tensor(rows), targets=y - 1),
                          lambda: m.maximum_likelihood_estimation(torch.tensor(rows), targets=y.double()),
                          lambda: m.maximum_likelihood_estimation(torch.tensor(rows), targets=targets)])
        before = {k: v.clone() for k, v in m.state_dict().items()}
        tr.must_raise("fit:naive:malformed", bad)
        tr.add("eq", "fit:naive:malformed", clause="parameters_changed", a=[], b=[k for k, v in before.items() if not torch.equal(v, m.state_dict()[k])])


def replay(item, rng, idx):
    j, hist = item
    kind_ = j["kind"]
    tr = Trace(f"class{idx}:{kind_}")
    torch.manual_seed(rng.randrange(10 ** 6))
    np.random.seed(rng.randrange(10 ** 6))
    try:
        p, f, mods = c24.build(j, rng)
        m = f()
    except Exception:  # noqa: BLE001  (judged by C24)
        return tr
    if kind_ != "naive":
        c24.sharpen(m, rng)
    prog, i = import_module(tr, m)
    prog.mods[i - 1] = m
    r = Run(tr, rng, m, prog, i, kind_)
    if j["roots"] < 2:
        tr.must_raise("single_class:posterior", lambda: m.log_posterior(torch.tensor(r.rows())))
        tr.must_raise("single_class:predict", lambda: m.predict(torch.tensor(r.rows())))
        if kind_ == "naive":
            tr.must_raise("single_class:fit", lambda: m.maximum_likelihood_estimation(torch.tensor([rand_row(rng, r.vt, r.nv)] * 3), targets=torch.zeros(3, dtype=torch.long)))
        r.density(0)
        return tr
    # the spec reads the prior off the root node, whose module is the model itself here
    prog.mods[i - 1] = m.root_node
    for h in hist:
        getattr(r, h["op"])(h["a"])
    return tr


def main(check):
    n = 150 if check.quick() else 1200
    js = histories(check, "BuildGen", 'Kinds = {"rat", "einet", "naive", "naive"}', 2 * n, 3, check.seed + 17)
    js = [j for j in js if j["z"] == 0 or (j["z"] in (3, 9) and j["kind"] == "naive")][:n]
    hs = histories(check, "ClassGen", f"Len_ = {8 if check.quick() else 14}", len(js), 20, check.seed)
    check.run("LibTrace", pmap(replay, list(zip(js, hs)), check.seed))
