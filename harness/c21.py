"""C21: Chow-Liu statistics, spanning trees, tree leaves and hidden Chow-Liu models."""
from c15 import quiet
from importer import *
from sampling import NAN

from spflow.modules.leaves.cltree import CLTree
from spflow.zoo.hclt import learn_hclt_binary, learn_hclt_categorical
from spflow.zoo.hclt.chow_liu import (learn_chow_liu_tree_binary, learn_chow_liu_tree_categorical, learn_chow_liu_trees_binary,
                                      learn_chow_liu_trees_categorical)
from spflow.zoo.hclt.mi import pairwise_marginal_binary, pairwise_mi_binary, pairwise_mi_categorical
from spflow.zoo.hclt.topk_mst import kruskal_mst_complete, mst_with_constraints, topk_mst


def table(j, rng, K, d=None, n=None):
    d, n, s = d or j["d"], n or j["rows"], j["shape"]
    X = [[rng.randrange(K) for _ in range(d)] for _ in range(n)]
    if s == "copy" and d > 1:
        for r in X:
            r[d - 1] = r[0]
    elif s == "const":
        for r in X:
            r[rng.randrange(d) if rng.random() < 0.2 else 0] = 0
    elif s == "chain":
        for r in X:
            for v in range(1, d):
                if rng.random() < 0.7:
                    r[v] = (r[v - 1] + 1) % K
    elif s in ("star", "star0"):
        hub = 0 if s == "star0" or rng.random() < 0.6 else rng.randrange(d)
        for r in X:
            for v in range(d):
                if rng.random() < 0.75:
                    r[v] = r[hub]
    elif s == "skew":
        for r in X:
            for v in range(d):
                if rng.random() < 0.6:
                    r[v] = 0
    return X


def row_weights(j, rng, n):
    k = j["wk"]
    if k == "none":
        return None
    if k == "one":
        return [1.0] * n
    w = [round(rng.uniform(0.05, 4) if k != "small" else rng.uniform(0.01, 0.4), 3) for _ in range(n)]
    if k == "zero":
        for i in rng.sample(range(n), max(0, min(n - 2, n // 3))):
            w[i] = 0.0
    return w


def edge_matrix(j, rng):
    d = j["d"]
    W = np.zeros((d, d))
    for a in range(d):
        for b in range(a):
            w = rng.randint(0, j["wmax"]) * (0.25 if rng.random() < 0.5 else 1)
            W[a, b] = W[b, a] = -w if j["sgn"] else w
    return W


def edges(out):
    return [[int(a), int(b)] for a, b in out]


def mst(j, rng, tr):
    d = j["d"]
    W = edge_matrix(j, rng)
    mx = j["max"]
    tag = "mst:" + ("max" if mx else "min")
    base = dict(W=nums(W), max=mx)
    ok, out = tr.attempt(tag + ":plain", lambda: kruskal_mst_complete(W, minimize=not mx))
    if ok:
        tr.add("mst", tag + ":plain", found=True, out=edges(out), inc=[], exc=[], total=num(sum(W[a, b] for a, b in out)), **base)
    flip = lambda e: (e[1], e[0]) if rng.random() < 0.3 else tuple(e)
    inc = [flip(e) for e in j["inc"]] if d > 1 else []
    exc = [flip(e) for e in j["exc"]] if d > 1 else []
    inc = [e for e in inc if tuple(sorted(e)) not in [tuple(sorted(x)) for x in exc]] if rng.random() < 0.8 else inc
    ok, got = tr.attempt(tag, lambda: mst_with_constraints(W, inc, exc, reuse=np.empty((d, d)), minimize=not mx))
    if ok:
        out, total = got
        tr.add("mst", tag, found=out is not None, out=edges(out or []), inc=[list(map(int, e)) for e in inc], exc=[list(map(int, e)) for e in exc],
               total=num(total if total is not None else 0), **base)
    return tr


def topk(j, rng, tr):
    W = edge_matrix(j, rng)
    mx = j["max"]
    tag = "topk:" + ("max" if mx else "min")
    if rng.random() < 0.3:
        W = np.round(W).astype(int)
        tag += ":int"
    before = W.copy()
    k = j["k"] if j["d"] < 5 or rng.random() < 0.7 else 130
    ok, out = tr.attempt(tag, lambda: topk_mst(W, num_trees=k, minimize=not mx))
    if ok:
        tr.add("eq", tag, clause="input_modified", a=nums(before), b=nums(W))
        tr.add("topk", tag, W=nums(W), k=k, max=mx, out=[edges(t) for t in out])
    # dropped edges only make candidates poorer: the list still starts with the best tree and repeats none
    ok, out = tr.attempt(tag + ":dropout", lambda: topk_mst(W, num_trees=k, minimize=not mx, dropout_prob=0.4, rng=np.random.default_rng(j["seed"])))
    if ok:
        canon = [tuple(sorted(tuple(sorted(e)) for e in t)) for t in edges_all(out)]
        tr.add("topk", tag + ":dropout", W=nums(W), k=1, max=mx, out=[edges(t) for t in out[:1]])
        tr.add("eq", tag + ":dropout", clause="distinct", a=len(canon), b=len(set(canon)))
    return tr


def edges_all(out):
    return [edges(t) for t in out]


def mi(j, rng, tr):
    K = 2 if rng.random() < 0.4 else j["K"]
    kind_ = "bin" if K == 2 and rng.random() < 0.6 else "cat"
    X = table(j, rng, K)
    n, d = len(X), j["d"]
    w = row_weights(j, rng, n)
    pc = float(j["pc"])
    dt = rng.choice([torch.float64, torch.float64, torch.float32])
    x = torch.tensor(X, dtype=rng.choice([torch.float64, torch.int64] + ([torch.bool] if kind_ == "bin" else [])))
    ws = None if w is None else torch.tensor(w, dtype=torch.float64)
    base = dict(data=nums(X), K=K, pc=num(pc), kind=kind_)
    if w is not None:
        base["ws"] = nums(w)
    tol = "1e-8" if dt == torch.float64 else "1e-4"
    kw = dict(weights=ws, pseudocount=pc, dtype=dt)
    tag = kind_ + (":w" if w else "")
    if kind_ == "bin":
        ok, out = tr.attempt("pair:" + tag, lambda: pairwise_marginal_binary(x, **kw))
        if ok:
            tr.add("pair", "pair:" + tag, tol=tol, out=nums(out), **base)
        fmi = lambda: pairwise_mi_binary(x, **kw)
    else:
        kw2 = dict(kw, num_cats=K if rng.random() < 0.7 or max(map(max, X)) < K - 1 else None, chunk_size_pairs=rng.choice([1, 2, 3, 4096]))
        fmi = lambda: pairwise_mi_categorical(x, **kw2)
    ok, out = tr.attempt("mi:" + tag, fmi)
    if ok:
        tr.add("mi", "mi:" + tag, tol=tol, out=nums(out), **base)
    # the trees learned from the statistics
    k = j["k"]
    if rng.random() < 0.3:
        k = 1
        f = (lambda: [learn_chow_liu_tree_binary(x, **kw)]) if kind_ == "bin" else (lambda: [learn_chow_liu_tree_categorical(x, **kw2)])
    else:
        f = (lambda: learn_chow_liu_trees_binary(x, num_trees=k, **kw)) if kind_ == "bin" else (lambda: learn_chow_liu_trees_categorical(x, num_trees=k, **kw2))
    ok, out = tr.attempt("trees:" + tag, f)
    if ok:
        tr.add("chowliu", "trees:" + tag, tol="1e-6" if dt == torch.float64 else "1e-4", k=k, out=edges_all(out), **base)
    return tr


def fit(j, rng, tr):
    d, K = max(2, j["d"]), j["K"]
    X = table(j, rng, K, d=d, n=max(3, j["rows"]))
    n = len(X)
    gap = rng.choice(["id", "perm", "perm", "gap"])
    sc = list(range(d))
    cols = d + (2 if gap == "gap" else 0)
    if gap == "perm":
        rng.shuffle(sc)
    elif gap == "gap":
        sc = rng.sample(range(cols), d)
    C, R = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
    alpha = rng.choice([0.01, 0.5, 1.0])
    D = [[float(X[b][sc.index(v)]) if v in sc else 7.5 for v in range(cols)] for b in range(n)]
    keep = list(range(n))
    for b in range(n):
        if rng.random() < 0.2 and len(keep) > 2:
            D[b][rng.choice(sc)] = NAN
            keep.remove(b)
    x = torch.tensor(D)
    m = CLTree(Scope(sc), out_channels=C, num_repetitions=R, K=K, alpha=alpha)
    tag = "fit:" + gap
    ws = [1.0] * n
    how = rng.choice(["mle", "mle", "wmle", "structure"])
    if how == "mle":
        ok, _ = tr.attempt(tag, lambda: m.maximum_likelihood_estimation(x, nan_strategy=rng.choice(["ignore", None])))
    elif how == "wmle":
        ws = row_weights(dict(j, wk=rng.choice(["pos", "small"])), rng, n)
        w = torch.tensor(ws).view(-1, 1, 1, 1).expand(-1, d, C, R).contiguous()
        tag += ":w"
        ok, _ = tr.attempt(tag, lambda: m.maximum_likelihood_estimation(x, weights=w))
    else:
        if j["wk"] != "none":
            ws = row_weights(dict(j, wk=rng.choice(["pos", "small"])), rng, n)
        tag += ":structure"
        ok, _ = tr.attempt(tag, lambda: m.fit_structure(x[keep], sample_weights=torch.tensor(ws)[keep] if j["wk"] != "none" else None))
    if not ok:
        return tr
    par = [int(p) + 1 for p in m.parents.tolist()]
    tr.add("fittree", tag, parent=par, data=nums([X[b] for b in keep]), ws=nums([ws[b] for b in keep]), K=K, alpha=num(alpha))
    # the tree's likelihood: root times conditionals, sums over missing values
    prog, i = import_module(tr, m, tag=tag)
    if how != "structure":
        tr.add("mle", tag, j=i, rows=nums(D), bias=True, alpha=num(alpha), cpt=[[nums(prog.nodes[i - 1]["cpt"][r][c]) for c in range(C)] for r in range(R)],
               w=[[[[num(ws[b])] * C for _ in range(d)] for _ in range(R)] for b in range(n)])
    rows = [[float(rng.randrange(K)) if v in sc else 0.0 for v in range(cols)] for _ in range(4)]
    for r in list(rows):
        rows.append([NAN if rng.random() < 0.5 else v for v in r])
    ok, out = tr.attempt(tag + ":ll", lambda: m.log_likelihood(torch.tensor(rows)))
    if ok:
        tr.add("ll", tag + ":ll", m=i, rows=nums(rows), out=out_tokens(out))
    return tr


def hclt(j, rng, tr):
    d, K, H, k = max(2, min(j["d"], 5)), j["K"], j["H"], min(j["k"], 5)
    kind_ = "bin" if K == 2 and rng.random() < 0.7 else "cat"
    X = table(j, rng, K, d=d)
    x = torch.tensor(X, dtype=torch.float64)
    w = row_weights(j, rng, len(X))
    pc = float(j["pc"])
    kw = dict(num_hidden_cats=H, num_trees=k, weights=None if w is None else torch.tensor(w), pseudocount=pc, init=j["init"])
    f = (lambda: learn_hclt_binary(x, **kw)) if kind_ == "bin" else (lambda: learn_hclt_categorical(x, num_cats=K, **kw))
    tag = f"hclt:{kind_}:{j['init']}"
    torch.manual_seed(j["seed"])
    ok, m = tr.attempt(tag, f)
    if not ok:
        return tr
    prog, i = import_module(tr, m, tag=tag)
    tr.add("valid", tag, m=i, scope=list(range(d)))
    rows = [[float(v) for v in r] for r in X[:3]] + [[float(rng.randrange(K)) if rng.random() < 0.6 else NAN for _ in range(d)] for _ in range(4)] + [[NAN] * d]
    ok, out = tr.attempt(tag, lambda: m.log_likelihood(torch.tensor(rows)))
    if ok:
        tr.add("ll", tag, m=i, rows=nums(rows), out=out_tokens(out))
        tr.add("eq", tag, clause="shape", a=list(out.shape), b=[len(rows), 1, 1, 1])
    # the trees the hidden variables are arranged in
    nodes = prog.nodes

    def below_(a):
        return set().union({a}, *[below_(c) for c in nodes[a - 1]["ins"]])
    scope_of = lambda a: sorted({v + 1 for b in below_(a) if nodes[b - 1]["op"] == "leaf" for v in nodes[b - 1]["scope"]})
    comps = []
    tops = [i]
    count = min(k, d ** (d - 2))
    if count > 1:
        while len(tops) < count and len(tops) == 1 and nodes[tops[0] - 1]["op"] in ("sum", "cat2"):
            tops = list(nodes[tops[0] - 1]["ins"])
    for t in tops:
        sums = [a for a in below_(t) if nodes[a - 1]["op"] == "sum"]
        comps.append({"scopes": [scope_of(a) for a in sums], "states": [len(nodes[a - 1]["w"][0][0]) for a in sums if a != t]})
    ev = dict(data=nums(X), K=K, pc=num(pc), kind=kind_, k=k, H=H, comps=comps, tol="1e-6")
    if w is not None:
        ev["ws"] = nums(w)
    if d < 5 or rng.random() < 0.4:
        tr.add("hclt", tag, **ev)
    return tr


def run(item, rng, idx):
    j = item[0]
    rng.seed(j["seed"])
    tr = Trace(f"{j['what']}{idx}")
    return {"mst": mst, "topk": topk, "mi": mi, "fit": fit, "hclt": hclt}[j["what"]](j, rng, tr)


def rejects(i, rng, idx):
    tr = Trace("reject")
    R = tr.must_raise
    x = torch.randint(0, 2, (6, 3)).double()
    y = x.clone()
    y[1, 1] = NAN
    for f in (learn_hclt_binary, learn_hclt_categorical):
        R("hclt:nan", lambda: f(y, num_hidden_cats=2))
        R("hclt:1d", lambda: f(x[0], num_hidden_cats=2))
        R("hclt:hidden", lambda: f(x, num_hidden_cats=0))
        R("hclt:trees", lambda: f(x, num_hidden_cats=2, num_trees=0))
        R("hclt:init", lambda: f(x, num_hidden_cats=2, init="zero"))
        R("hclt:pseudocount", lambda: f(x, num_hidden_cats=2, pseudocount=-1.0))
    for f in (learn_chow_liu_trees_binary, learn_chow_liu_trees_categorical, learn_chow_liu_tree_binary, learn_chow_liu_tree_categorical):
        R("trees:1d", lambda: f(x[0]))
        R("trees:weights", lambda: f(x, weights=torch.ones(5)))
        R("trees:infinite", lambda: f(x, weights=torch.full((6,), float("inf"))))
        R("trees:pseudocount", lambda: f(x, pseudocount=-0.5))
    R("mi:nan", lambda: pairwise_mi_categorical(y))
    R("mi:range", lambda: pairwise_mi_categorical(x + 1, num_cats=2))
    R("mi:negative", lambda: pairwise_mi_categorical(x - 1))
    W = np.ones((3, 3))
    R("mst:nan", lambda: kruskal_mst_complete(W * np.nan))
    R("mst:square", lambda: kruskal_mst_complete(np.ones((2, 3))))
    R("mst:dropout", lambda: mst_with_constraints(W, [], [], reuse=W.copy(), dropout_prob=1.0))
    R("topk:number", lambda: topk_mst(W, num_trees=0))
    t = CLTree(Scope([0, 1, 2]), K=2)
    R("cltree:unfitted", lambda: t.log_likelihood(x))
    R("cltree:domain", lambda: t.maximum_likelihood_estimation(x + 1))
    R("cltree:fraction", lambda: t.maximum_likelihood_estimation(x + 0.5))
    R("cltree:one_row", lambda: t.maximum_likelihood_estimation(x[:1]))
    R("cltree:structure_nan", lambda: t.fit_structure(y))
    R("cltree:two_roots", lambda: CLTree(Scope([0, 1, 2]), K=2, parents=torch.tensor([-1, -1, 0])))
    R("cltree:no_root", lambda: CLTree(Scope([0, 1, 2]), K=2, parents=torch.tensor([1, 2, 0])))
    for par in ([-1, 2, 1], [-1, 1, 0], [2, -1, 0], [-1, 2, 2]):  # cycles: refused at construction or when evaluated
        for rows in (x, y):
            R("cltree:cycle", lambda: CLTree(Scope([0, 1, 2]), K=2, parents=torch.tensor(par)).log_likelihood(rows))
            R("cltree:cycle", lambda: CLTree(Scope([0, 1, 2]), K=2, parents=torch.tensor(par)).sample(num_samples=2))
    R("cltree:range", lambda: CLTree(Scope([0, 1, 2]), K=2, parents=torch.tensor([-1, 5, 0])))
    return tr


def main(check):
    qk = check.quick()
    js = histories(check, "TreeGen", "MaxD = %d MaxRows = %d" % ((5, 12) if qk else (6, 20)), 700 if qk else 4000, 3, check.seed)
    # trees whose root has several children, every initialisation
    js += [[dict(h[0], what="hclt", d=check.rng.choice([4, 5]), shape="star0", H=check.rng.choice([2, 3]), init=init, k=1 if n_ % 3 else 2, rows=12)]
           for n_, h in enumerate(js[:12 if qk else 60]) for init in ("random", "uniform")]
    trs = pmap(run, js, check.seed) + pmap(rejects, [0], check.seed)
    check.design("TopK", "SPECIFICATION Spec\nCONSTANTS D = 4 Weights = {%s} Ties = FALSE\nINVARIANTS Partition Best Distinct Ordered NoneBetter Complete\nCHECK_DEADLOCK FALSE\n"
                 % ("0, 1" if qk else "0, 1, 2, 3"))
    check.run("LibTrace", [t for t in trs if t.events])
