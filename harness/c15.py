"""C15: structure learners return valid models of the data they were given."""
import contextlib
import io
import itertools
import warnings
from importer import *
from sampling import NAN

from spflow.exceptions import InvalidParameterError, UnsupportedOperationError
from spflow.learn.cnet import learn_cnet
from spflow.learn.learn_spn import learn_spn, prune_sums
from spflow.learn.prometheus import learn_prometheus

DISC = ["bernoulli", "categorical", "binomial", "poisson", "geometric", "hypergeometric"]
CONTS = ["normal", "exponential", "gamma", "log_normal", "uniform", "histogram"]


def value(rng, dist):
    while True:
        x = val_of(rng, dist)
        if dist == "uniform" and abs(x) > 0.5 or dist == "histogram" and abs(x) > 3:
            continue
        return x


class Oracle:
    """A clustering / partitioning / affinity procedure with arbitrary answers that depend on the data only."""

    def __init__(self, answers, make):
        self.answers, self.make, self.tab, self.calls = answers, make, {}, {}

    def __call__(self, x, **kw):
        key = tuple(map(tuple, x.tolist()))
        if key not in self.tab:
            n = self.answers(key)
            self.tab[key] = [self.make(key, kw) for _ in range(n)]
            self.calls[key] = 0
        k = self.calls[key] % len(self.tab[key])
        self.calls[key] += 1
        return torch.tensor(self.tab[key][k])

    def spec(self, one=False):
        return [{"x": nums([list(r) for r in k]), "ans": (v[0] if one else v)} for k, v in self.tab.items()]


def labels(rng, n, kmax, least):
    """at most kmax clusters of at least `least` rows, with arbitrary label values"""
    k = rng.randint(1, kmax)
    while k > 1 and n < k * least:
        k -= 1
    names = rng.sample([0, 1, 2, 3, 5, 8], k)
    out = [i for i in range(k) for _ in range(least)] if k * least <= n else []
    out += [rng.randrange(k) for _ in range(n - len(out))]
    rng.shuffle(out)
    return [names[i] for i in out]


def groups(rng, d, split):
    k = rng.randint(1, max(1, min(d, 3))) if split else 1
    names = rng.sample([0, 1, 2, 4, 7], k)
    out = list(range(k)) + [rng.randrange(k) for _ in range(d - k)]
    rng.shuffle(out)
    return [names[i] for i in out]


def order_used(oracle, data, scope):
    """the order in which the learner presents the variables to its procedures (any order is right);
    None if equal columns leave it open"""
    found = []
    for key in oracle.tab:
        if len(key) == len(data) and len(key[0]) == len(scope):
            for p in itertools.permutations(scope):
                if all(tuple(r[v] for v in p) == k for r, k in zip(data, key)):
                    found.append(list(p))
            return found[0] if len(found) == 1 else None
    return list(scope)


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f()


def learned(tr, tag, m, scope, rows, exact=True, **kw):
    """record a learned circuit: its validity, its likelihoods, and the distribution it must have"""
    try:
        prog, i = import_module(tr, m, tag=tag)
    except NotCovered as x:
        raise MachineryError(f"learned circuit contains {x}")
    tr.add("valid", tag, m=i, scope=list(scope))
    ok, out = tr.attempt(tag, lambda: m.log_likelihood(torch.tensor(rows)))
    if not ok:
        return prog, i
    if exact:
        tr.add("ll", tag, m=i, rows=nums(rows), out=out_tokens(out))
    tr.add("eq", tag, clause="not_a_number", a=[], b=[k for k, o in enumerate(out) if torch.isnan(o).any()])
    if kw:
        trees = [{"scope": n["scope"], "parent": n["parent"], "cpt": nums(n["cpt"][0][0])} for n in prog.nodes if n.get("dist") == "cltree"]
        tr.add("learned", tag, trees=trees, scope=list(scope), mscope=[int(v) for v in m.scope.query], rows=nums(rows), out=out_tokens(out), **kw)
    # pruning a learned circuit changes nothing
    if exact and tr.tag.endswith("p"):
        pruned(tr, tag, m, i, rows)
    return prog, i


def pruned(tr, tag, m, i, rows):
    shape = tuple(m.out_shape)
    ok, _ = tr.attempt(tag + ":prune", lambda: prune_sums(m))
    if not ok:
        return
    ok, out = tr.attempt(tag + ":prune", lambda: m.log_likelihood(torch.tensor(rows)))
    if ok:
        tr.add("ll", tag + ":prune", m=i, rows=nums(rows), out=out_tokens(out))
    tr.add("eq", tag + ":prune", clause="shape", a=list(shape), b=list(m.out_shape))
    tr.attempt(tag + ":prune:sample", lambda: m.sample(data=torch.full((2, len(rows[0])), NAN)))


def scenario(j, rng):
    nv = j["nv"]
    cols = nv + rng.choice([0, 0, 1])
    vs = rng.sample(range(cols), nv)
    if j["perm"] < 4:
        vs.sort()
    dist = {}
    for v in range(cols):
        pool = {"disc": DISC, "cont": CONTS, "mixed": DISC + CONTS}[j["fam"]]
        dist[v] = rng.choice(pool)
    return cols, vs, dist


def templates(j, vs, dist, rng):
    """leaf templates: one per family (or several), in some order; data columns are typed accordingly"""
    order = list(vs)
    rng.shuffle(order)
    cut = rng.randint(1, len(order)) if j["parts"] > 1 else len(order)
    parts = [p for p in (order[:cut], order[cut:]) if p]
    nodes = []
    for p in parts:
        d = dist[p[0]]
        if d == "histogram":
            ps = [[v] for v in p]
        else:
            ps = [p]
        for q_ in ps:
            for v in q_:
                dist[v] = d
            if j["perm"] % 2:
                q_ = sorted(q_)
            n = fill(leaf_node(q_, C=j["loc"], R=rng.choice([1, 1, 2]), dist=d), rng)
            for rs in n["par"]:
                for fs in rs:
                    for c in range(1, len(fs)):
                        fs[c] = fs[0]
            nodes.append(n)
    return nodes


def run(item, rng, idx):
    j = item[0]
    rng.seed(j["seed"] * 31 + idx)
    alg = j["alg"]
    tr = Trace(f"{alg}{idx}" + ("p" if rng.random() < 0.4 else ""))
    torch.manual_seed(rng.randrange(10 ** 6))
    np.random.seed(rng.randrange(10 ** 6))
    if alg == "cnet":
        return cnet(j, rng, tr)
    cols, vs, dist = scenario(j, rng)
    nodes = templates(j, vs, dist, rng)
    cont = any(dist[v] in CONTS for v in vs)
    least = 4 if cont else 1
    N = max(j["rows"], 5 if cont else 1)
    mixed_alg = alg == "prom" and j["corr"]
    if mixed_alg:  # correlations computed by the library: without ties
        for n in nodes:
            if n["dist"] not in ("normal", "log_normal", "gamma"):
                return tr
        N, least = max(N, 6), 5
    data = [[value(rng, dist[v]) if v in vs else round(rng.uniform(-9, 9), 2) for v in range(cols)] for _ in range(N)]
    if not cont and rng.random() < 0.4:  # duplicate rows
        data += [list(rng.choice(data)) for _ in range(rng.randint(1, 3))]
    rng.shuffle(data)
    tm = []
    for n in nodes:
        ok, m = tr.attempt("template:" + n["dist"], lambda: mk_leaf(n))
        if not ok:
            return tr
        tm.append(m)
    x = torch.tensor(data)
    probe = data[:6] + [[value(rng, dist[v]) if v in vs else 0.0 for v in range(cols)] for _ in range(3)]
    tmpl = [{"scope": n["scope"], "dist": n["dist"], "aux": nums(n["aux"]), "par": [nums(n["par"][0][f][0]) for f in range(len(n["scope"]))]} for n in nodes]
    pass_scope = rng.random() < 0.5
    scope = vs
    lm = tm[0] if len(tm) == 1 and rng.random() < 0.5 else tm
    kw = dict(leaf_modules=lm, out_channels=j["oc"], min_features_slice=j["mf"], min_instances_slice=j["mi"])
    if pass_scope:
        kw["scope"] = Scope(vs)
    before = x.clone()
    tag = f"{alg}:{j['fam']}"
    if alg == "spn":
        clus = Oracle(lambda key: j["oc"], lambda key, kw: labels(rng, len(key), j["k"], least))
        part = Oracle(lambda key: 1, lambda key, kw: groups(rng, len(key[0]), rng.randint(0, 3) < j["split"]))
        ok, m = tr.attempt(tag, lambda: quiet(lambda: learn_spn(x, clustering_method=clus, partitioning_method=part, **kw)))
        extra = dict(part=part.spec(True), corr=False)
    else:
        full = (len(data), len(scope))
        if rng.random() < 0.2:
            kw["min_features_slice"] = 1
        clus = Oracle(lambda key: j["oc"] if (len(key), len(key[0])) == full else 1,
                      lambda key, kw: labels(rng, len(key), kw["n_clusters"], least if rng.random() < 0.5 or cont else 1))

        def affinity(key, kw):
            d = len(key[0])
            A = [[1.0] * d for _ in range(d)]
            ws = rng.sample(range(0, 200), d * (d - 1) // 2)
            for a in range(d):
                for b in range(a):
                    A[a][b] = A[b][a] = ws.pop() / 200.0
            return A
        aff = Oracle(lambda key: 1, affinity)
        kw["n_clusters"] = j["k"]
        kw["similarity"] = "corr" if mixed_alg else aff
        ok, m = tr.attempt(tag, lambda: quiet(lambda: learn_prometheus(x, clustering_method=clus, **kw)))
        extra = dict(part=[{"x": e["x"], "ans": nums(e["ans"])} for e in aff.spec(True)], corr=mixed_alg)
    if not ok:
        return tr
    order = order_used(part if alg == "spn" else clus, data, scope)
    tr.add("eq", tag, clause="input_modified", a=nums(before), b=nums(x))
    if order is None:
        learned(tr, tag, m, scope, probe)
        return tr
    learned(tr, tag, m, order, probe, alg=alg, data=nums(data), tmpl=tmpl, mi=j["mi"], mf=kw["min_features_slice"], oc=j["oc"], loc=j["loc"], clus=clus.spec(), **extra)
    return tr


def cnet(j, rng, tr):
    cols = j["nv"] + rng.choice([0, 1])
    vs = rng.sample(range(cols), j["nv"])
    if j["perm"] < 4:
        vs.sort()
    K = [rng.choice([2, 2, 3]) for _ in range(cols)]
    if rng.random() < 0.3:
        K = [3] * cols
    skew = rng.choice([0, 0, 1])
    data = [[float(rng.randrange(K[v]) if not (skew and rng.random() < 0.5) else 0) for v in range(cols)] for _ in range(max(1, j["rows"]))]
    data += [list(rng.choice(data)) for _ in range(rng.choice([0, 0, 4]))]
    x = torch.tensor(data)
    cond = rng.choice(["naive_mle", "naive_mle", "random"])
    mf = rng.choice([1, 1, 2])
    mi = rng.choice([1, 2, 3, 4, 20])
    alpha = rng.choice([0.01, 0.1, 1.0])
    kw = dict(cardinalities=K[0] if len(set(K)) == 1 and rng.random() < 0.7 else K, cond=cond, min_instances_slice=mi, min_features_slice=mf,
              out_channels=j["oc"], alpha=alpha, seed=rng.choice([None, 3, 11]))
    pass_scope = rng.random() < 0.5 or len(vs) < cols
    scope = vs if pass_scope else list(range(cols))
    if pass_scope:
        kw["scope"] = Scope(vs)
    tag = "cnet:" + cond
    ok, m = tr.attempt(tag, lambda: learn_cnet(x, **kw))
    if not ok:
        return tr
    tr.add("eq", tag, clause="input_modified", a=nums(data), b=nums(x))
    probe = data[:5] + [[float(rng.randrange(K[v])) for v in range(cols)] for _ in range(4)]
    learned(tr, tag, m, scope, probe, alg="cnet", data=nums(data), card=K, mi=mi, mf=mf, oc=j["oc"], cond=cond, alpha=num(alpha))
    return tr


def odd_data(rng):
    n, d = rng.choice([2, 3, 5, 12, 30]), rng.choice([2, 3, 4])
    kind_ = rng.choice(["rand", "const", "constcol", "dup", "copy", "disc", "two"])
    X = [[round(rng.gauss(0, 1), 3) for _ in range(d)] for _ in range(n)]
    if kind_ == "const":
        X = [[1.5] * d for _ in range(n)]
    elif kind_ == "constcol":
        for r in X:
            r[0] = 2.0
    elif kind_ == "dup":
        X = [list(X[0]) for _ in range(n)]
    elif kind_ == "copy":
        for r in X:
            r[1] = r[0]
    elif kind_ == "disc":
        X = [[float(rng.randint(0, 2)) for _ in range(d)] for _ in range(n)]
    elif kind_ == "two":
        X = [[float(i % 2)] * d for i in range(n)]
    return kind_, X, d


def defaults(i, rng, idx):
    """the built-in clustering, independence tests and affinities on unusual data: the result must be a valid model"""
    kind_, X, d = odd_data(rng)
    disc = kind_ in ("disc", "two")
    dist = "categorical" if disc else "normal"
    sc = list(range(d))
    alg = rng.choice(["spn", "prom", "prom"])
    tag = f"default:{alg}:{kind_}"
    tr = Trace(f"{tag}{idx}" + ("p" if rng.random() < 0.3 else ""))
    torch.manual_seed(rng.randrange(10 ** 6))
    np.random.seed(rng.randrange(10 ** 6))
    tm = [mk_leaf(fill(leaf_node(sc, C=rng.choice([1, 2]), dist=dist), rng))]
    kw = dict(leaf_modules=tm, out_channels=rng.choice([1, 1, 2]), min_instances_slice=rng.choice([2, 4, 100]))
    if alg == "spn":
        f = lambda: learn_spn(torch.tensor(X), **kw)
    else:
        mode = rng.choice(["full", "sampled"])
        kw.update(similarity=rng.choice(["corr", "rdc"]), affinity_mode=mode, n_clusters=rng.choice([1, 2, 3]))
        if mode == "sampled":
            kw.update(sampling_per_var=rng.choice([None, 1, 5]), sampling_seed=rng.choice([None, 1]))
        f = lambda: learn_prometheus(torch.tensor(X), **kw)
    ok, m = tr.attempt(tag, lambda: quiet(f))
    if ok:
        learned(tr, tag, m, sc, X[:3], exact=kind_ in ("rand", "disc"))
    return tr


def nested(i, rng, idx):
    """pruning of circuits with sums over sums, several output channels, features and repetitions"""
    tr = Trace(f"prune{idx}")
    torch.manual_seed(rng.randrange(10 ** 6))
    nodes = []
    F = rng.choice([1, 1, 2])
    R = rng.choice([1, 1, 2])
    sc = list(range(F))
    one = rng.choice(["bernoulli", "categorical", "normal"])

    def add(n):
        nodes.append(n)
        return len(nodes)

    def chan(k):
        n = nodes[k - 1]
        return {"leaf": lambda: len(n["par"][0][0]), "sum": lambda: n["_co"], "cat2": lambda: sum(chan(c) for c in n["ins"]),
                "cat1": lambda: chan(n["ins"][0])}[n["op"]]()

    def leafn(scope, C=None):
        return add(leaf_node(scope, C=C or rng.choice([1, 1, 2]), R=R, dist=one))

    def summ(child, co=None):
        co = co or rng.choice([1, 1, 2])
        n = node("sum", [child], w=q(R, F, co, chan(child)), _co=co)
        return add(n)

    def build(depth):
        c = rng.random()
        if depth == 0 or c < 0.15:
            if F == 2 and rng.random() < 0.4:
                C = rng.choice([1, 2])
                a, b = leafn([0], C), leafn([1], C)
                if rng.random() < 0.5:  # sums below a feature-wise concatenation
                    a = add(node("sum", [a], w=q(R, 1, C, C), _co=C))
                    b = add(node("sum", [b], w=q(R, 1, C, C), _co=C))
                return add(node("cat1", [a, b]))
            return leafn(sc)
        kids = [summ(build(depth - 1)) if rng.random() < 0.8 else build(depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))]
        if len(kids) > 1 and rng.random() < 0.25:
            kids.append(kids[0])
        child = kids[0] if len(kids) == 1 else add(node("cat2", kids))
        return summ(child)
    root = build(rng.choice([1, 2, 2, 3]))
    if nodes[root - 1]["op"] == "leaf":
        root = summ(root)
    if rng.random() < 0.4:
        root = add(node("prod", [root]))
    nodes = [fill(n, rng) for n in nodes]
    prog = Prog(tr, nodes)
    if not prog.ok:
        return tr
    vt = var_types(nodes)
    rows = [rand_row(rng, vt, F) for _ in range(5)]
    pruned(tr, "prune:" + ("F%d" % F), prog.mods[-1], len(nodes), rows)
    return tr


def rejects(i, rng, idx):
    tr = Trace(f"reject{idx}")
    N2 = lambda sc, **k: L.Normal(Scope(sc), **k)
    x = torch.randn(12, 3)
    cl = lambda d, **k: (torch.arange(d.shape[0]) % 2)
    pa = lambda d: torch.ones(d.shape[1])
    base = dict(clustering_method=cl, partitioning_method=pa, min_instances_slice=4)
    R = tr.must_raise
    for bad in (1, 0, -1, 2.5):
        R("spn:min_features", lambda: learn_spn(x, N2([0, 1, 2]), min_features_slice=bad, clustering_method=cl, partitioning_method=pa))
        R("spn:min_instances", lambda: learn_spn(x, N2([0, 1, 2]), min_instances_slice=bad, clustering_method=cl, partitioning_method=pa))
    R("spn:clustering", lambda: learn_spn(x, N2([0, 1, 2]), clustering_method="nope", partitioning_method=pa))
    R("spn:partitioning", lambda: learn_spn(x, N2([0, 1, 2]), partitioning_method="nope", clustering_method=cl))
    R("spn:overlap", lambda: learn_spn(x, [N2([0, 1]), N2([1, 2])], **base))
    R("spn:conditional", lambda: learn_spn(x, N2([0, 1]), scope=Scope([0, 1], evidence=[2]), **base))
    for sc in ([0, 2], [0, 1, 2]):
        R("spn:uncovered", lambda: learn_spn(x, [N2([0])], scope=Scope(sc), **base))
        R("prom:uncovered", lambda: learn_prometheus(x, [N2([0])], scope=Scope(sc), min_instances_slice=4))
        R("prom:uncovered", lambda: learn_prometheus(x, [N2([0])], scope=Scope(sc), min_instances_slice=400))
    P = lambda **k: quiet(lambda: learn_prometheus(x, k.pop("lm", N2([0, 1, 2])), **{**dict(min_instances_slice=4, clustering_method=lambda d, n_clusters: cl(d)), **k}))
    R("prom:out_channels", lambda: P(out_channels=0))
    R("prom:min_features", lambda: P(min_features_slice=0))
    R("prom:min_instances", lambda: P(min_instances_slice=0))
    R("prom:clusters", lambda: P(n_clusters=0))
    R("prom:mode", lambda: P(affinity_mode="half"))
    R("prom:sampling", lambda: P(affinity_mode="sampled", sampling_per_var=0))
    R("prom:clustering", lambda: P(clustering_method="nope"))
    R("prom:similarity", lambda: P(similarity="nope"))
    R("prom:sampled_custom", lambda: P(similarity=lambda d: torch.eye(d.shape[1]), affinity_mode="sampled"))
    R("prom:affinity_shape", lambda: P(similarity=lambda d: torch.ones(2, 3)))
    R("prom:no_leaves", lambda: P(lm=[]))
    R("prom:leaf_type", lambda: P(lm="leaf"))
    y = x.clone()
    y[3, 1] = NAN
    R("prom:nan", lambda: quiet(lambda: learn_prometheus(y, N2([0, 1, 2]), min_instances_slice=4, clustering_method=lambda d, n_clusters: cl(d))))
    d = torch.tensor([[0., 1, 1], [1, 0, 2], [1, 1, 0], [0, 0, 1]])
    C = lambda z=d, **k: learn_cnet(z, **{**dict(cardinalities=3, min_instances_slice=2), **k})
    ok, _ = tr.attempt("cnet:control", C)
    R("cnet:cond", lambda: C(cond="entropy"))
    R("cnet:length", lambda: C(cardinalities=[3, 3]))
    R("cnet:cardinality", lambda: C(cardinalities=2))
    R("cnet:negative", lambda: C(d - 1))
    R("cnet:fraction", lambda: C(d + 0.25))
    R("cnet:nan", lambda: C(torch.where(d == 2, torch.tensor(NAN), d)))
    R("cnet:1d", lambda: C(d[0]))
    return tr


def main(check):
    qk = check.quick()
    n = 500 if qk else 2500
    js = histories(check, "LearnGen", 'Algs = {"spn", "spn", "prom", "cnet"} MaxRows = %d' % (14 if qk else 18), n, 3, check.seed)
    trs = pmap(run, js, check.seed)
    trs += pmap(defaults, list(range(60 if qk else 300)), check.seed + 1)
    trs += pmap(nested, list(range(120 if qk else 800)), check.seed + 2)
    trs += pmap(rejects, [0], check.seed + 3)
    check.run("LibTrace", [t for t in trs if t.events])
