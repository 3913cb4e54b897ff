"""C20: signed circuits, inner and triple products, sums of squares."""
from importer import *
from spflow.modules.sos.socs import SOCS
from spflow.utils.cache import Cache
from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
from spflow.learn.build_socs import build_socs, build_abs_weight_proposal
from spflow.zoo.sos import ExpSOCS, SOSModel, ExpSOSModel

OPS = "sum prod cat1 cat2 cltree"
FIN = ("bernoulli", "categorical", "binomial", "hypergeometric", "signed_categorical")


def base(d):
    return "categorical" if d == "signed_categorical" else d


def signs(nodes, rng, p_leaf=0.3, p_sum=0.6):
    """choose which leaves and sums of a program carry signs: whatever stands on a signed module is signed"""
    nodes = json.loads(json.dumps(nodes))
    bad = [False] * len(nodes)
    for j, n in enumerate(nodes):
        if n["op"] == "leaf":
            if n["dist"] == "categorical" and rng.random() < p_leaf:
                n["dist"], bad[j] = "signed_categorical", True
        else:
            bad[j] = any(bad[i - 1] for i in n["ins"])
            if n["op"] == "sum":
                n["_signed"] = bad[j] or rng.random() < p_sum
                bad[j] = n["_signed"]
    return nodes, bad


def refill(nodes, rng):
    """fresh parameters; signed sums get weights of either sign, some zero, some cancelling"""
    def rec(x):
        if isinstance(x, str):
            return rng.choice([0.0, 1.0, -1.0] + [round(rng.uniform(-2, 2), 3) for _ in range(6)])
        return [rec(y) for y in x]
    out = []
    for n in nodes:
        n = json.loads(json.dumps(n))
        if n.get("_signed"):
            n["w"] = rec(n["w"])
            if n["w"] and rng.random() < 0.1:      # one row of weights all zero
                r = rng.choice(rng.choice(n["w"]))
                r[0] = [0.0] * len(r[0])
        else:
            n = fill(n, rng)
        n["_variant"] = rng.randint(0, 1)
        out.append(n)
    return out


def shifted(nodes, d):
    return [dict(n, ins=[i + d for i in n["ins"]]) for n in nodes]


def dom_of(nodes):
    vt = {}
    for n in nodes:
        if n["op"] == "leaf":
            for v in n["scope"]:
                d = base(n["dist"])
                if d == "cltree":
                    d = "bernoulli" if len(n["cpt"][0][0][0][0]) == 2 else "categorical"
                vt[v] = d
    nv = max(vt) + 1
    return vt, [DOMSIZE.get(vt.get(v), 0) for v in range(nv)]


def flat(t):
    """(F, C1, .., Ck, R) -> out[r][f][q]"""
    k = t.dim()
    t = t.detach().permute(k - 1, *range(k - 1))
    return nums(t.reshape(t.shape[0], t.shape[1], -1))


def prod_event(tr, mods, ms, dom, cache, tag):
    a = [mods[i - 1] for i in ms]
    fn = inner_product_matrix if len(ms) == 2 else triple_product_tensor
    ev = dict(ms=ms, dom=dom)
    try:
        out = fn(*a, cache=cache)
        tr.add("ip", tag, refused=False, out=flat(out), **ev)
    except Exception as x:  # noqa: BLE001
        tr.add("ip", tag, refused=True, why=type(x).__name__, out=[], **ev)


def rows_for(rng, vt, nv, n):
    return [rand_row(rng, vt, nv) for _ in range(n)]


def signed_event(tr, prog, i, rows, tag):
    m = prog.mods[i - 1]
    x = torch.tensor(rows)
    ok, out = tr.attempt(tag, lambda: m.signed_logabs_and_sign(x))
    if ok:
        tr.add("signed", tag, m=i, rows=nums(rows), la=out_tokens(out[0]), sg=out[1].permute(0, 3, 1, 2).tolist())
        tr.add("eq", tag, clause="input_modified", a=nums(rows), b=nums(x))


def sos_event(tr, model, comps, mono, rows, dom, tag, vt, nodes, shape=None):
    x = torch.tensor(rows)
    cache = Cache()
    ev = dict(comps=comps, mono=mono, rows=nums(rows), dom=dom)
    try:
        out = model.log_likelihood(x)
    except Exception as e:  # noqa: BLE001
        tr.add("sos", tag, refused=True, why=type(e).__name__ + " " + str(e)[:100], out=[], **ev)
        return False
    tr.add("sos", tag, refused=False, out=out_tokens(out), **ev)
    tr.add("eq", tag, clause="input_modified", a=nums(rows), b=nums(x))
    ok, out2 = tr.attempt(tag, lambda: model.log_likelihood(x, cache=cache))
    if ok:
        tr.add("eq", tag, clause="cache_changes_result", a=nums(out), b=nums(out2))
    return True


def mass_event(tr, model, comps, mono, dom, tag):
    if not all(dom) or np.prod(dom) > 100:
        return
    rows = list(joint_rows(dict(enumerate(dom)), len(dom)))
    try:
        out = model.log_likelihood(torch.tensor(rows))
    except Exception:  # noqa: BLE001  (judged by the event before)
        return
    if True:
        tr.add("sosmass", tag, comps=comps, mono=mono, dom=dom, out=out_tokens(out))


def programs(item, rng, idx):
    """generated circuits, twins of them, their products and the squares models made of them"""
    nodes = item
    tr = Trace(f"prog{idx}")
    proto, bad = signs(nodes, rng)
    n = len(proto)
    vt, dom = dom_of(nodes)
    prog = Prog(tr, refill(proto, rng))
    if not prog.ok:
        return tr
    for z in (1, 2):  # the twin, and a monotone relative
        second = refill(signs(nodes, rng)[0] if z == 2 and rng.random() < 0.5 else
                        (signs(nodes, rng, 0, 0)[0] if z == 2 else proto), rng)
        for nd in shifted(second, z * n):
            if not prog.mk(nd):
                return tr
    rows = rows_for(rng, vt, len(dom), 4)
    def kd(i):
        nd = prog.nodes[i - 1]
        return ("signed" if nd.get("_signed") else "") + kind(nd)
    for i in range(1, n + 1):
        if prog.nodes[i - 1].get("dist") == "signed_categorical":
            for v in (3.0, -1.0):   # not a category: refused, or worth nothing
                x = torch.tensor(rows[:1])
                x[0, prog.nodes[i - 1]["scope"][0]] = v
                try:
                    la = prog.mods[i - 1].signed_logabs_and_sign(x)[0][0, 0]
                except (ValueError, IndexError, RuntimeError):
                    continue
                tr.add("eq", "signed:outside", clause="value_outside_the_domain", a=[], b=nums(la.exp()[la > -60].flatten()))
        if prog.nodes[i - 1]["op"] == "sum" and prog.nodes[i - 1].get("_signed") or prog.nodes[i - 1].get("dist") == "signed_categorical":
            signed_event(tr, prog, i, rows, "signed:" + kind(prog.nodes[i - 1]))
    cache = rng.choice([None, Cache()])
    order = list(range(1, n + 1))
    rng.shuffle(order)
    for i in order:
        for ms in rng.sample([[i, i + n], [i + n, i], [i, i], [i + n, i + n], [i + 2 * n, i]], 2):
            prod_event(tr, prog.mods, ms, dom, cache, f"inner:{kd(i)}")
        if prog.nodes[i - 1]["op"] != "leaf" or rng.random() < 0.3:
            ms = rng.choice([[i, i, i + 2 * n], [i, i + n, i + 2 * n], [i + n, i, i], [i, i + n, i], [i, i, i]])
            sz = np.prod([prog.mods[m - 1].out_shape.channels for m in ms])
            if sz <= 12:
                prod_event(tr, prog.mods, ms, dom, cache, f"triple:{kd(i)}")
                if rng.random() < 0.3:
                    prod_event(tr, prog.mods, [ms[1], ms[0], ms[2]], dom, cache, f"triple:{kd(i)}")
    for _ in range(3):   # arbitrary pairs: mostly incompatible
        i, j = rng.randint(1, n), rng.randint(n + 1, 3 * n)
        prod_event(tr, prog.mods, [i, j], dom, cache, "inner:any")
    for i in rng.sample(range(1, n + 1), min(3, n)) + [n]:
        sub = {v for j in below(prog.nodes, i) | {i} if prog.nodes[j - 1]["op"] == "leaf" for v in prog.nodes[j - 1]["scope"]}
        comps = rng.choice([[i], [i, i + n], [i + n, i], [i, i + n, i]])
        ok, m = tr.attempt("socs", lambda: SOCS([prog.mods[c - 1] for c in comps]))
        if not ok:
            continue
        sos_event(tr, m, comps, 0, rows, dom, "socs:" + kd(i), vt, prog.nodes)
        if sub == {v for v in range(len(dom)) if True} and prog.mods[i - 1].out_shape.features == 1:
            mass_event(tr, m, comps, 0, dom, "socs:" + kd(i))
        if tuple(prog.mods[i - 1].out_shape) == (1, 1, 1):
            mono = i + 2 * n
            if not any("_signed" in x and x["_signed"] or x.get("dist") == "signed_categorical"
                       for x in (prog.nodes[j - 1] for j in below(prog.nodes, mono) | {mono})):
                ok, m = tr.attempt("expsocs", lambda: ExpSOCS(monotone=prog.mods[mono - 1], components=[prog.mods[c - 1] for c in comps]))
                if ok:
                    sos_event(tr, m, comps, mono, rows, dom, "expsocs:" + kd(i), vt, prog.nodes)
                    if sub == set(range(len(dom))):
                        mass_event(tr, m, comps, mono, dom, "expsocs:" + kd(i))
    return tr


FAMS = ["bernoulli", "categorical", "signed_categorical", "binomial", "geometric", "poisson", "negative_binomial", "hypergeometric",
        "exponential", "gamma", "normal", "laplace", "log_normal", "uniform", "histogram"]


def fam_par(rng, d, wide):
    """parameters over a wider range than circuits use"""
    u = lambda a, b: round(rng.uniform(a, b), 4)
    if not wide:
        return leaf_par(rng, d)
    return {
        "bernoulli": lambda: [rng.choice([u(0.001, 0.999), 0.5])], "binomial": lambda: [float(rng.randint(0, 40)), u(0.01, 0.99)],
        "exponential": lambda: [10 ** u(-3, 3)], "gamma": lambda: [u(0.7, 30), 10 ** u(-2, 2)], "geometric": lambda: [u(0.001, 0.999)],
        "laplace": lambda: [rng.choice([0.0, 1.0, u(-20, 20)]), rng.choice([0.5, 2.0, 10 ** u(-1, 1)])],
        "log_normal": lambda: [u(-3, 3), u(0.2, 2)], "negative_binomial": lambda: [float(rng.randint(1, 9)), u(0.01, 0.8)],
        "normal": lambda: [u(-30, 30), 10 ** u(-1.5, 1.5)], "poisson": lambda: [10 ** rng.choice([u(-2, 1), u(-2, 1), u(2.4, 2.8)])],
        "uniform": lambda: rng.choice([[0.0, 1.0], [1.0, 2.5], [u(-5, 0), u(0.1, 5)], [-3.0, -1.0]]),
        "hypergeometric": lambda: (lambda K, n: [float(K), 12.0, float(n)])(rng.randint(0, 12), rng.randint(0, 12)),
    }.get(d, lambda: leaf_par(rng, d))()


def leaf_products(item, rng, idx):
    """leaf-level products: different channel counts, several features and repetitions, wide parameter ranges"""
    d, wide = item
    tr = Trace(f"leaf{idx}:{d}")
    F = 1 if d == "histogram" else rng.randint(1, 2)
    R = rng.randint(1, 2)
    sc = rng.sample(range(3), F)
    prog = Prog(tr, [])
    for z in range(3):
        C = rng.randint(1, 2 if d in ("poisson", "negative_binomial") else 3)
        dd = d
        if d == "signed_categorical" and rng.random() < 0.4:
            dd = "categorical"
        n = leaf_node(sc, C, R, dd)
        if d in ("categorical", "signed_categorical"):
            par = [[[leaf_par(rng, dd) for _ in range(C)] for _ in range(F)] for _ in range(R)]
        elif d == "histogram":
            nb = rng.randint(1, 4)
            edges = sorted(rng.sample([-3.0, -2.0, -1.5, 0.0, 0.25, 1.0, 2.5, 4.0], nb + 1))
            n["aux"] = edges
            par = [[[simplex(rng, nb) for _ in range(C)] for _ in range(F)] for _ in range(R)]
        else:
            par = [[[fam_par(rng, dd, wide) for _ in range(C)] for _ in range(F)] for _ in range(R)]
            if dd == "hypergeometric":   # every feature of a channel has the same parameters
                par = [[rs[0] for _ in range(F)] for rs in par]
        n["par"] = par
        if not prog.mk(n):
            return tr
    dom = [0, 0, 0]
    cache = rng.choice([None, Cache()])
    for ms in ([1, 2], [2, 1], [1, 1], [3, 2], [1, 3], [1, 2, 3], [2, 1, 3], [3, 3, 1], [1, 1, 1]):
        prod_event(tr, prog.mods, ms, dom, cache, f"{'inner' if len(ms) == 2 else 'triple'}:leaf:{d}")
    return tr


def mismatches(item, rng, idx):
    """circuits that are not compatible are refused"""
    tr = Trace(f"mismatch{idx}")
    C = lambda k, v, ch=2, r=1: {"op": "leaf", "ins": [], "dist": "categorical", "scope": [v] if isinstance(v, int) else v, "aux": [],
                                 "par": [[[simplex(rng, k) for _ in range(ch)] for _ in ([v] if isinstance(v, int) else v)] for _ in range(r)]}
    B = lambda sc, ch=2, r=1: fill(leaf_node(sc, ch, r), rng)
    prog = Prog(tr, [C(3, 0), C(2, 0), B([0]), B([1]), B([0, 1]), B([1, 0]), B([0], 2, 2), fill(leaf_node([0], 2, 1, "normal"), rng)])
    S = lambda i, ci, co=2, f=1, r=1, **kw: fill(node("sum", [i], w=q(r, f, co, ci), **kw), rng)
    more = [node("prod", [5]), node("prod", [6]), node("prod", [3, 4]), node("prod", [4, 3]), node("cat1", [3, 4]), node("cat1", [4, 3]),
            node("cat2", [3, 3]), S(3, 2), S(12, 2), node("cat2", [3, 1]) if False else S(1, 2)]
    tree = lambda par: {"op": "leaf", "ins": [], "dist": "cltree", "scope": [0, 1, 2], "aux": [], "parent": par,
                        "cpt": [[[[simplex(rng, 2) for _ in range(1 if p == 0 else 2)] for p in par] for _ in range(2)]]}
    more += [tree([0, 1, 2]), tree([0, 1, 1]), tree([0, 1, 2]), S(5, 2, f=2), S(6, 2, f=2), node("prod", [len(prog.nodes) + 14])]
    for n in more:
        if not prog.mk(n):
            return tr
    N = len(prog.nodes)
    dom = [3, 2, 2]
    dom = [2, 2, 2]
    pairs = [(i, j) for i in range(1, N + 1) for j in range(1, N + 1)]
    for i, j in rng.sample(pairs, 60):
        if not {i, j} & {1, 2} or True:
            k3 = any(uses(prog.nodes, z, d) for z in (i, j) for d in ("categorical", "normal"))
            prod_event(tr, prog.mods, [i, j], [0, 0, 0] if k3 else dom, None, "inner:mismatch")
    for _ in range(25):
        i, j = rng.choice(pairs)
        k = rng.choice([i, j, rng.randint(1, N)])
        k3 = any(uses(prog.nodes, z, d) for z in (i, j, k) for d in ("categorical", "normal"))
        prod_event(tr, prog.mods, [i, j, k], [0, 0, 0] if k3 else dom, None, "triple:mismatch")
    return tr


def stale(item, rng, idx):
    """one cache across circuits that come and go: addresses are reused"""
    tr = Trace(f"stale{idx}")
    cache = Cache()
    new = lambda: fill(leaf_node([0], 1, 1, "normal"), rng)
    seen = set()
    for _ in range(300):
        a, b = mk_leaf(new()), mk_leaf(new())
        seen.add((id(a), id(b)))
        inner_product_matrix(a, b, cache=cache)
        triple_product_tensor(a, b, b, cache=cache)
        del a, b
    z = 0
    for _ in range(2000):
        na, nb = new(), new()
        a, b = mk_leaf(na), mk_leaf(nb)
        if (id(a), id(b)) in seen and z < 20:
            tr.add("mk", "mk", node=to_spec(na))
            tr.add("mk", "mk", node=to_spec(nb))
            prod_event(tr, {2 * z: a, 2 * z + 1: b}, [2 * z + 1, 2 * z + 2], [0], cache, "inner:cache_reused")
            prod_event(tr, {2 * z: a, 2 * z + 1: b}, [2 * z + 1, 2 * z + 2, 2 * z + 2], [0], cache, "triple:cache_reused")
            z += 1
        del a, b
    tr.add("eq", "stale", clause="none", a=[], b=[])
    return tr


def builders(item, rng, idx):
    """squares models made from a template, their proposals and their samples"""
    nodes = item
    tr = Trace(f"bsoc{idx}")
    vt, dom = dom_of(nodes)
    src = Trace("src")
    prog0 = Prog(src, [fill(dict(n), rng) for n in nodes])
    if not prog0.ok:
        return tr
    roots = [i for i in range(1, len(nodes) + 1) if nodes[i - 1]["op"] in ("sum", "prod")] or [len(nodes)]
    template = prog0.mods[rng.choice(roots[-3:]) - 1]
    prog, t = import_module(tr, template)
    before = {k: v.clone() for k, v in template.state_dict().items()}
    flip = rng.choice([0.0, 1.0, 0.5])
    noise = rng.choice([0.0, 0.0, 0.05])
    signed = rng.random() < 0.85
    seed = rng.randrange(1000)
    K = rng.randint(1, 3)
    call = lambda: build_socs(template, num_components=K, signed=signed, noise_scale=noise, flip_prob=flip, seed=seed)
    ok, m = tr.attempt("build_socs", call)
    if not ok:
        return tr
    tr.add("eq", "build_socs", clause="template_changed", a=[], b=[k for k, v in template.state_dict().items() if k not in before or not torch.equal(v, before[k])])
    ok, m2 = tr.attempt("build_socs", call)
    if ok:
        d = m2.state_dict()
        tr.add("eq", "build_socs", clause="not_reproducible", a=[], b=[k for k, v in m.state_dict().items() if k not in d or not torch.equal(v, d[k])])
    comps = []
    for c in m.components:
        prog, i = import_module(tr, c, prog)
        comps.append(i)
    tr.add("bsoc", "build_socs", t=t, comps=comps, want=K, signed=signed, flip=num(flip), noise=num(noise))
    rows = rows_for(rng, vt, len(dom), 4)
    if not sos_event(tr, m, comps, 0, rows, dom, "build_socs", vt, prog.nodes):
        return tr
    props = []
    for c, i in zip(m.components, comps):
        st = {k: v.clone() for k, v in c.state_dict().items()}
        ok, p = tr.attempt("proposal", lambda: build_abs_weight_proposal(c))
        if not ok:
            return tr
        tr.add("eq", "proposal", clause="component_changed", a=[], b=[k for k, v in c.state_dict().items() if not torch.equal(v, st[k])])
        if signed:
            prog, j = import_module(tr, p, prog)
            props.append(j)
            tr.add("prop", "proposal", m=i, p=j, eps="1e-8")
    for kw in (dict(num_components=0), dict(noise_scale=-0.1), dict(flip_prob=1.2), dict(flip_prob=-0.1)):
        tr.must_raise("build_socs:malformed", lambda: build_socs(template, **dict(dict(num_components=1), **kw)))
    sub = set(int(v) for v in m.scope.query)
    if tuple(m.out_shape) == (1, 1, 1) and signed and all(dom[v] for v in sub) and np.prod([dom[v] for v in sub]) <= 12:
        N = 4000
        x0 = torch.full((N, len(dom)), float("nan"))
        ok, s = tr.attempt("socs:sample", lambda: m.sample(data=x0.clone()))
        if ok:
            jr = list(joint_rows({v: dom[v] for v in sub}, len(dom), float("nan")))
            vs = sorted(sub)
            cnt = {tuple(r[v] for v in vs): 0 for r in jr}
            bad = 0
            for row in s[:, vs].tolist():
                if tuple(row) in cnt:
                    cnt[tuple(row)] += 1
            tr.add("sossmp", "socs:sample", comps=comps, props=props, rows=nums(jr), n=N, counts=[cnt[tuple(r[v] for v in vs)] for r in jr])
            keep = [v for v in range(len(dom)) if v not in sub]
            tr.add("eq", "socs:sample", clause="other_columns_changed", a=[], b=[v for v in keep if not torch.isnan(s[:, v]).all()])
    ev = torch.full((2, len(dom)), float("nan"))
    ev[0, vs[0] if (vs := sorted(sub)) else 0] = 0.0
    tr.must_raise("socs:sample:evidence", lambda: m.sample(data=ev))
    tr.must_raise("socs:sample:mpe", lambda: m.sample(num_samples=1, is_mpe=True))
    return tr


def zoo(item, rng, idx):
    """the squares architectures, read off the built model"""
    tr = Trace(f"zoo{idx}")
    kw = dict(item)
    cls = kw.pop("cls")
    reject = kw.pop("reject", False)
    f = lambda: (SOSModel if cls == "sos" else ExpSOSModel)(**kw)
    if reject:
        tr.must_raise(f"zoo:{cls}:inadmissible", f)
        return tr
    tag = f"zoo:{cls}:{kw['region_graph']}"
    ok, m = tr.attempt(tag, f)
    if not ok:
        return tr
    tr.add("eq", tag, clause="shape", a=[1, 1, 1], b=list(m.out_shape))
    tr.add("eq", tag, clause="scope", a=list(range(kw["num_variables"])), b=sorted(int(v) for v in m.scope.query))
    n = kw.get("num_squares", 1) * (2 if kw.get("complex") else 1)
    tr.add("eq", tag, clause="number_of_components", a=n, b=len(m.components))
    prog = Prog(tr, [])
    comps = []
    for c in m.components:
        prog, i = import_module(tr, c, prog)
        comps.append(i)
    mono = 0
    if cls != "sos":
        prog, mono = import_module(tr, m.monotone, prog)
    K = list(kw["input_layer_kwargs"].values())[0] if kw.get("input_layer_kwargs") else 0
    nv = kw["num_variables"]
    dom = [K] * nv
    for j, nd in enumerate(prog.nodes, 1):
        if nd.get("dist") == "signed_categorical" or nd["op"] == "sum" and type(prog.mods[j - 1]).__name__ == "SignedSum":
            rows = [[float(rng.randrange(K)) if K else round(rng.uniform(-2, 2), 3) for _ in range(nv)] for _ in range(2)]
            signed_event(tr, prog, j, rows, tag + ":signed")
    rows = [[float(rng.randrange(K)) if K else round(rng.uniform(-2, 2), 3) for _ in range(nv)] for _ in range(4)]
    sos_event(tr, m, comps, mono, rows, dom, tag, None, prog.nodes)
    mass_event(tr, m, comps, mono, dom, tag)
    ok, m2 = tr.attempt(tag, f)
    if ok and kw["input_layer"] == "embedding" and cls == "sos" and kw.get("non_monotonic_inputs", True):   # every parameter is drawn from the seed
        tr.add("eq", tag, clause="not_reproducible", a=nums(m.log_likelihood(torch.tensor(rows))), b=nums(m2.log_likelihood(torch.tensor(rows))))
    return tr


def zoo_jobs(rng, n):
    out = []
    for _ in range(n):
        lay = rng.choice(["categorical", "embedding", "gaussian"])
        rg = rng.choice(["rnd-bt", "rnd-lt", "lt", "qt", "qt-2", "qt-4"])
        K = rng.choice([2, 3])
        if rg.startswith("qt"):
            h, w = rng.choice([(2, 2), (1, 2), (2, 3), (2, 1), (3, 1)])
            nv, shp = h * w, (1, h, w)
        else:
            nv, shp = rng.randint(1, 5), None
        ex = {"categorical": {"num_categories": K}, "embedding": {"num_states": K}, "gaussian": None}[lay]
        d = dict(cls=rng.choice(["sos", "sos", "exp"]), num_variables=nv, image_shape=shp, num_input_units=rng.randint(1, 2),
                 num_sum_units=rng.randint(1, 2), input_layer=lay, input_layer_kwargs=ex, region_graph=rg,
                 structured_decomposable=rng.random() < 0.5, complex=rng.random() < 0.4, seed=rng.randrange(10 ** 4))
        if rng.random() < 0.5:
            d["non_monotonic_inputs"] = rng.random() < 0.5
        if d["cls"] == "sos":
            d["num_squares"] = rng.randint(1, 3)
        if rng.random() < 0.15:
            d.update(rng.choice([dict(num_variables=0), dict(num_input_units=0), dict(num_sum_units=0), dict(input_layer="bogus"),
                                 dict(input_layer="categorical", input_layer_kwargs={}), dict(region_graph="qt", image_shape=None),
                                 dict(image_shape=(1, 2, 7)), dict(region_graph="zz")] + ([dict(num_squares=0)] if d["cls"] == "sos" else [])), reject=True)
        out.append(d)
    return out


def twins(rng):
    """several different nodes over one scope below the same root: nothing may be mistaken for its sibling"""
    out = []
    for d in ("bernoulli", "categorical", "categorical", "categorical"):
        C, R = rng.randint(1, 2), rng.randint(1, 2)
        lv = lambda v: leaf_node([v], C, R, d)
        four = [lv(0), lv(1), lv(0), lv(1), node("prod", [1, 2]), node("prod", [3, 4])]
        out.append(four + [node("cat2", [5, 6]), node("sum", [7], w=q(R, 1, 1, 2 * C))])
        out.append(four[:4] + [node("sum", [i], w=q(R, 1, 2, C)) for i in (1, 2, 3, 4)]
                   + [node("prod", [5, 6]), node("prod", [7, 8]), node("cat2", [9, 10]), node("sum", [11], w=q(R, 1, 2, 4))])
        out.append([leaf_node([0, 1], C, R, d), leaf_node([0, 1], C, R, d), node("prod", [1]), node("prod", [2]),
                    node("sum", [3], w=q(R, 1, 2, C)), node("sum", [4], w=q(R, 1, 2, C)), node("cat2", [6, 5]), node("sum", [7], w=q(R, 1, 1, 4))])
    return out


def main(check):
    quick = check.quick()
    k = 1 if quick else 6
    rng = random.Random(check.seed)
    progs = []
    for s, (ds, nv) in enumerate([(["bernoulli", "categorical"], 4), (["categorical"], 3), (["bernoulli", "categorical", "binomial", "hypergeometric"], 3),
                                  (["normal", "gamma", "poisson", "laplace", "exponential", "log_normal", "geometric", "uniform", "histogram", "negative_binomial"], 4)]):
        ps, _ = gen_programs(ds, 16 * k, check.seed * 100 + s, nvars=nv, maxnodes=7, maxc=2, maxf=2, maxr=2, ops=OPS, num=60 * k, check=check)
        progs += ps
    progs += twins(rng)
    check.run("LibTrace", pmap(programs, progs, check.seed))
    check.run("LibTrace", pmap(leaf_products, [(d, w) for d in FAMS for w in (False, True, True) for _ in range(k)], check.seed + 1)
              + pmap(mismatches, range(3 * k), check.seed + 2) + pmap(stale, range(2), check.seed + 3))
    check.run("LibTrace", pmap(builders, progs[:len(progs)], check.seed + 4) + pmap(zoo, zoo_jobs(rng, 40 * k), check.seed + 5))
