"""C27: continuous mixtures compile to the discrete mixture of their best epoch."""
import copy

from c21 import table
from importer import *
from sampling import NAN, sample_batch, mpe_batch
from spflow.zoo.cms import LatentOptimizationConfig, learn_continuous_mixture_cltree, learn_continuous_mixture_factorized, rqmc_sobol_normal


def data_of(job, rng, n, K, holes):
    """rows of the job's kind: structured enough for epochs to differ"""
    nv = job["nv"]
    if job["leaf"] == "normal":
        base = [rng.uniform(-2, 2) for _ in range(nv)]
        rows = [[rng.choice((1, -1)) * base[v] + rng.gauss(0, 0.5) for v in range(nv)] for _ in range(n)]
    else:
        shape = rng.choice(["", "copy", "const", "chain", "star", "skew"])
        rows = [[float(v) for v in r] for r in table({"d": nv, "rows": n, "shape": shape}, rng, K)]
    if holes:
        rows = [[NAN if rng.random() < 0.25 else v for v in r] for r in rows]
    return rows


def saturated(prog):
    """a probability so close to one that its complement cannot be read off it, a density close to a point mass"""
    flat = lambda v: [x for w in v for x in flat(w)] if isinstance(v, list) else [float(v)]
    def bad(n):
        if n.get("dist") == "bernoulli":
            return max(flat(n["par"])) > 1 - 1e-7 or min(flat(n["par"])) < 1e-100
        if n.get("dist") == "normal":
            return any(c[1] < 0.05 or abs(c[0]) > 20 for r in n["par"] for f in r for c in f)
        return n["op"] == "leaf" and min(flat(n["cpt"] if n["dist"] == "cltree" else n["par"])) < 1e-100
    return any(bad(n) for n in prog.nodes)


def replay(job, rng, idx):
    clt = job["leaf"].startswith("clt")
    K = 2 if job["leaf"] in ("bernoulli", "cltbin") else job["k"]
    nv, n = job["nv"], job["rows"]
    dt = torch.float32 if job["f32"] else torch.float64
    tol, eps = ("1e-4", "1e-4") if job["f32"] else ("1e-8", "1e-9")
    tr = Trace(f"cm{idx}:{job['leaf']}")
    rows = data_of(job, rng, n, K, job["missing"] and not clt)
    val = data_of(job, rng, job["valsize"] + 1, K, job["missing"] and not clt) if job["val"] else None
    x, xv = torch.tensor(rows, dtype=dt), None if val is None else torch.tensor(val, dtype=dt)
    batch = rng.choice((n, max(1, n // 2), 100)) if job["batch"] > 1 else 1
    kw = dict(leaf={"cltbin": "bernoulli", "cltcat": "categorical"}.get(job["leaf"], job["leaf"]), latent_dim=job["latent"], num_points_train=job["train"],
              num_points_eval=None if job["same"] else job["points"], batch_size=batch, lr=float(job["lr"]), seed=job["seed"])
    if job["leaf"] in ("categorical", "cltcat"):
        kw["num_cats"] = K
    floor = rng.choice((1e-4, 0.1, 0.4))
    if job["leaf"] == "normal":
        kw["normal_eps"] = floor
    fn = learn_continuous_mixture_cltree if clt else learn_continuous_mixture_factorized
    tag = job["leaf"]

    def learn(**over):
        torch.manual_seed(job["seed"])
        return fn(x, **{**kw, **over})

    before = x.clone()
    probes = data_of(job, rng, 3, K, not clt or rng.random() < 0.5)
    xp = torch.tensor(probes, dtype=dt)
    prog = None
    models = []

    def add(m, points, what):
        nonlocal prog
        prog, i = import_module(tr, copy.deepcopy(m).double(), prog, tag=f"{tag}:{what}")
        tr.add("valid", f"{tag}:{what}", m=i, scope=list(range(nv)))
        tr.add("cmbuilt", f"{tag}:{what}", m=i, points=points, tol="1e-5", floor=num(floor * 0.999999))
        return i

    def like(m):
        return out_tokens(m.log_likelihood(xp))

    for e in range(1, job["epochs"] + 1):
        ok, m = tr.attempt(tag, lambda: learn(num_epochs=e, patience=0))
        if not ok:
            return tr
        models.append(add(m, job["points"], "run"))
        if saturated(prog):
            return tr
    last = m
    ok, out = tr.attempt(tag + ":ll", lambda: like(last))
    if not ok:
        return tr
    tr.add("ll", tag + ":ll", m=models[-1], rows=nums(probes), out=out, tol=tol)
    tr.add("eq", tag, clause="input_modified", a=nums(before), b=nums(x))
    tr.add("eq", tag, clause="seed_not_honoured", a=out, b=like(learn(num_epochs=job["epochs"], patience=0)))
    if clt:
        tree = prog.nodes[[k for k, nd in enumerate(prog.nodes) if nd.get("dist") == "cltree"][-1]]
        for nd in prog.nodes:
            if nd.get("dist") == "cltree" and nd["parent"] != tree["parent"]:
                tree = nd
        tr.add("fittree", tag + ":tree", parent=tree["parent"], data=nums(rows), ws=nums([1.0] * n), K=K, alpha="0.01")
    # runs that watch a score return the best epoch seen before they stop
    for pat, watch in ((job["patience"], xv), (1, None), (2, None), (3, xv), (2, xv), (0, xv)):
        ok, m = tr.attempt(tag + ":watched", lambda: learn(num_epochs=job["epochs"], patience=pat, **({} if watch is None else {"val_data": watch})))
        if ok:
            tr.add("cmpick", tag + (":val" if watch is not None else ":train"), models=models, data=nums(rows if watch is None else val), rows=nums(probes),
                   out=like(m), patience=pat, tracked=watch is not None or pat > 0, tol=tol, eps=eps)
    if job["lo"]:
        lo = lambda epochs, pat, **o: LatentOptimizationConfig(**{**dict(num_points=job["lopoints"], num_epochs=epochs, batch_size=(n, max(1, n // 2), 100)[job["lobatch"] - 1],
                                                                 lr=float(job["lolr"]), patience=pat, seed=job["seed"] % 97), **o})
        over = dict(num_epochs=1, patience=0, **({} if val is None else {"val_data": xv}))
        # without steps the points are the compiled ones; switched off, nothing changes
        ok, m = tr.attempt(tag + ":lo0", lambda: learn(num_epochs=1, patience=0, lo=lo(0, 1, num_points=job["points"], seed=42)))
        if ok:
            tr.add("ll", tag + ":lo0", m=models[0], rows=nums(probes), out=like(m), tol=tol)
        ok, m = tr.attempt(tag + ":looff", lambda: learn(num_epochs=1, patience=0, lo=lo(3, 1, enabled=False)))
        if ok:
            tr.add("ll", tag + ":looff", m=models[0], rows=nums(probes), out=like(m), tol=tol)
        ks = []
        for e in range(1, job["loepochs"] + 1):
            ok, m = tr.attempt(tag + ":lo", lambda: learn(lo=lo(e, 0), **over))
            if not ok:
                return tr
            ks.append(add(m, job["lopoints"], "lo"))
            if saturated(prog):
                return tr
        for pat in (job["lopatience"], 1):
            ok, m = tr.attempt(tag + ":lo", lambda: learn(lo=lo(job["loepochs"], pat), **over))
            if ok:
                tr.add("cmpoints", tag + (":val" if val is not None else ":train"), models=ks, data=nums(rows if val is None else val), rows=nums(probes),
                       out=like(m), patience=pat, tol=tol, eps=eps)
    if idx % 2 == 0 and not job["f32"] and (K == 3 or job["leaf"] in ("bernoulli", "cltbin", "normal")):
        vt = var_types(prog.nodes)
        at = models[-1]
        prog.mods[at - 1] = last
        sample_batch(tr, rng, prog, at, vt, nv, 500, evidence=False, api=True, groups=1, tag=tag + ":smp:")
        sample_batch(tr, rng, prog, at, vt, nv, 500, evidence=True, api=True, groups=2, tag=tag + ":evid:")
        mpe_batch(tr, rng, prog, at, vt, nv, "mpe", tag=tag + ":mpe:", groups=4)
    refusals(tr, rng, tag, x, kw, fn, clt, K)
    return tr


def points(job, rng, idx):
    """integration points: shape, weights, stratification, reproducibility"""
    tr = Trace(f"points{idx}")
    n, d = rng.choice((1, 2, 4, 8, 16, 32, 3, 5, 6, 12)), rng.randint(1, 5)
    dt = rng.choice((torch.float64, torch.float32))
    seed = job["seed"] if rng.random() < 0.8 else 0
    f = lambda sd=seed, **o: rqmc_sobol_normal(**{**dict(num_points=n, latent_dim=d, dtype=dt, seed=sd), **o})
    ok, p = tr.attempt("points", f)
    if not ok:
        return tr
    tr.add("points", "points", z=nums(p.z), ws=nums(p.weights), n=n, d=d, tol="1e-5")
    torch.manual_seed(rng.randrange(10 ** 6))
    state = torch.get_rng_state()
    again = f()
    tr.add("eq", "points", clause="not_reproducible", a=nums(p.z), b=nums(again.z))
    tr.add("eq", "points", clause="global_generator_used", a=state.tolist()[:64], b=torch.get_rng_state().tolist()[:64])
    tr.add("eq", "points", clause="seed_ignored", a=True, b=nums(f(seed + 1).z) != nums(p.z))
    free = f(None)
    tr.add("points", "points:free", z=nums(free.z), ws=nums(free.weights), n=n, d=d, tol="1e-5")
    tr.add("eq", "points", clause="shift_not_random", a=True, b=nums(f(None).z) != nums(free.z))
    tr.add("eq", "points", clause="dtype", a=str(p.z.dtype), b=str(dt))
    for bad in (dict(num_points=0), dict(latent_dim=0), dict(eps=0.0), dict(eps=0.1), dict(num_points=-1)):
        tr.must_raise("points:refuse", lambda: f(**bad))
    return tr


def refusals(tr, rng, tag, x, kw, fn, clt, K):
    call = lambda d=x, **o: (torch.manual_seed(0), fn(d, **{**kw, "num_epochs": 1, "patience": 0, **o}))
    bad = [("data", lambda: call(x[:, 0])), ("data", lambda: call(x.unsqueeze(0))), ("latent", lambda: call(latent_dim=0)),
           ("points", lambda: call(num_points_train=0)), ("points", lambda: call(num_points_eval=0)), ("batch", lambda: call(batch_size=0)),
           ("leaf", lambda: call(leaf="poisson"))]
    if not clt:
        bad += [("epochs", lambda: call(num_epochs=0)), ("lr", lambda: call(lr=0.0)), ("lr", lambda: call(lr=-0.1)), ("patience", lambda: call(patience=-1))]
    else:
        bad += [("normal", lambda: call(leaf="normal")), ("nan", lambda: call(torch.full_like(x, NAN)))]
    if kw["leaf"] == "categorical":
        bad += [("cats", lambda: call(num_cats=None)), ("cats", lambda: call(num_cats=1)), ("range", lambda: call(torch.full_like(x, float(K)))),
                ("range", lambda: call(torch.full_like(x, -1.0)))]
    if kw["leaf"] == "bernoulli":
        bad += [("range", lambda: call(torch.full_like(x, 2.0))), ("range", lambda: call(torch.full_like(x, -1.0)))]
    if kw["leaf"] != "normal":
        bad += [("integer", lambda: call(torch.full_like(x, 0.5)))]
    F = x.shape[1]
    for shape in (x[:, 0], torch.cat([x, x[:, :1]], dim=1)) + ((x[:, :1],) if F > 1 else ()):
        bad.append(("valshape", lambda shape=shape: call(val_data=shape)))
    if clt:
        spoil = lambda value: torch.cat([x[:1], torch.where(torch.arange(F) == rng.randrange(F), torch.full_like(x[:1], value), torch.zeros_like(x[:1]))])
        bad += [("valrange", lambda: call(val_data=spoil(float(K)))), ("valrange", lambda: call(val_data=spoil(-1.0))), ("valint", lambda: call(val_data=spoil(0.5))),
                ("valnan", lambda: call(val_data=spoil(NAN)))]
    for what, f in rng.sample(bad, 6):
        tr.must_raise(f"{tag}:refuse:{what}", f)


def main(check):
    qk = check.quick()
    check.design("BestEpochMC", f"""SPECIFICATION Spec
CONSTANTS MaxLen = {4 if qk else 6} MaxScore = {2 if qk else 3} MaxPatience = 3
INVARIANTS Rule Bests First Stops Wider
PROPERTY Terminates
CHECK_DEADLOCK FALSE
""")
    js = histories(check, "CmGen", f"MaxEpochs = {9 if qk else 14}", 80 if qk else 500, 1, check.seed)
    check.run("LibTrace", pmap(replay, js, check.seed) + pmap(points, js, check.seed + 1))
