"""C23: information measures against their definitions on the circuit's joint distribution."""
from importer import *
from gallery import GALLERY, NotCovered

from spflow import measures as it_
from spflow.exceptions import InvalidParameterError, UnsupportedOperationError

NAN = float("nan")
FUN = {"entropy": it_.entropy, "mi": it_.mutual_information, "cmi": it_.conditional_mutual_information}
AGGS = ["logmeanexp", "logmeanexp", "first"]
REFUSE = (InvalidParameterError, UnsupportedOperationError)


def disjoint_features(prog, i):
    """the features of module i cover different variables, so their product is a distribution"""
    fs = fs_of(prog.mods[i - 1])
    return all(sum(len(f) for f in r) == len(set().union(*map(set, r))) for r in fs)


def call(tr, tag, ev, f, out):
    try:
        ev["out"] = out(f())
        ev["raised"] = False
    except REFUSE:
        ev["raised"] = True
    except Exception as e:  # noqa: BLE001
        tr.add("raise", tag, err=repr(e)[:100])
        return
    tr.add(ev.pop("_e"), tag, **ev)


def as_arg(rng, vs):
    z = rng.randint(0, 3)
    return vs[0] if z == 0 and len(vs) == 1 else Scope(vs) if z == 1 and len(vs) else tuple(vs) if z == 2 else list(vs)


def info_event(tr, rng, prog, i, scope, nv, method, name):
    m = prog.mods[i - 1]
    kind_ = rng.choice(["entropy", "mi", "cmi", "cmi"] if len(scope) > 2 else ["entropy", "mi", "mi"])
    vs = list(scope)
    rng.shuffle(vs)
    vs = vs[:4]
    k = {"entropy": 1, "mi": 2, "cmi": 3}[kind_]
    sets = [[] for _ in range(k)]
    for j, v in enumerate(vs):
        if j < k or rng.random() < .4:
            sets[j if j < k else rng.randrange(k)].append(v)
    if rng.random() < .15 and k > 1 and all(sets):
        a, b = rng.sample(range(k), 2)
        sets[a] = sets[a] + [rng.choice(sets[b])]
    if rng.random() < .04:
        sets[rng.randrange(k)] = []
    if rng.random() < .04:
        method = rng.choice(["MC", "enumerate", ""])
    n = 1500
    if method == "mc" and rng.random() < .05:
        n = 0
    single = m.out_shape.channels == 1 and m.out_shape.repetitions == 1 and m.out_shape.features == 1
    if method == "mc" and not (single and set(range(len(scope))) == set(scope)):
        return
    ca, ra = rng.choice(AGGS), rng.choice(AGGS)
    tag = f"{kind_}:{method if method in ('mc', 'exact') else 'other'}:{name}"
    seed = rng.randrange(10 ** 6)
    ev = dict(_e="info", kind=kind_, m=i, X=sets[0], Y=sets[1] if k > 1 else [], Z=sets[2] if k > 2 else [], cagg=ca, ragg=ra, nv=nv,
              method=method, n=n, out="nan")
    call(tr, tag, ev, lambda: FUN[kind_](m, *[as_arg(rng, s) for s in sets], method=method, num_samples=n, seed=seed,
                                         channel_agg=ca, repetition_agg=ra), lambda o: num(o.item()))


def size_of(prog, v):
    """smallest size the leaves give variable v"""
    return min([len(n["cpt"][0][0][0][0]) if n["dist"] == "cltree" else len(n["par"][0][0][0]) if n["dist"] == "categorical" else DOMSIZE[n["dist"]]
                for n in prog.nodes if n["op"] == "leaf" and v in n["scope"]])


def some_rows(rng, prog, vt, nv, k):
    vals = lambda: [float(rng.randrange(size_of(prog, v))) if vt.get(v) in DOMSIZE else x for v, x in enumerate(rand_row(rng, vt, nv))]
    return [[NAN if rng.random() < .3 else x for x in vals()] for _ in range(k)]


def evidence_event(tr, rng, prog, i, scope, vt, nv, name):
    m = prog.mods[i - 1]
    y = rng.choice(scope)
    if vt[y] not in DOMSIZE:
        a = val_of(rng, vt[y])
    else:
        a = float(rng.randrange(size_of(prog, y)))
    ca, ra = rng.choice(AGGS), rng.choice(AGGS)
    rows = some_rows(rng, prog, vt, nv, 3)
    kw = dict(channel_agg=ca, repetition_agg=ra, y_index=y, y_value=rng.choice([int, float])(a) if a == int(a) else a)
    base = dict(m=i, y=y, a=num(a), cagg=ca, ragg=ra, rows=nums(rows), out=[])
    x = torch.tensor(rows)
    what = rng.choice(["condp", "woe", "loo"])
    tag = f"{what}:{name}"
    k = rng.choice([None, None, 2, 5])
    n = rng.choice([1, 10, 1000, 10 ** 6, 0])
    eps = rng.choice([1e-6, 1e-2, 0.3])
    if what != "condp":
        base.update(n=n, k=k or 0, eps=num(eps))
        kw.update(n=n, k=k, eps=eps)
    if what == "condp":
        call(tr, tag, dict(base, _e=what), lambda: it_.conditional_probability(m, evidence=x, **kw), nums)
    elif what == "woe":
        less = [[NAN if rng.random() < .5 else v for v in r] for r in rows]
        call(tr, tag, dict(base, _e=what, less=nums(less)),
             lambda: it_.weight_of_evidence(m, evidence_full=x, evidence_reduced=torch.tensor(less), **kw), nums)
    else:
        call(tr, tag, dict(base, _e=what), lambda: it_.weight_of_evidence_leave_one_out(m, x_instance=x, **kw), nums)
    tr.add("eq", tag, clause="input_modified", a=nums(rows), b=nums(x))


def queries(tr, rng, prog, i, vt, name, reps):
    m = prog.mods[i - 1]
    scope = [int(v) for v in m.scope.query]
    nv = max(vt) + 1
    n = prog.nodes[i - 1]
    if any(prog.nodes[j - 1]["op"] == "rmix" for j in below(prog.nodes, i) | {i}) and n["op"] == "rmix":
        return
    if tainted(prog.nodes, n) or any(tainted(prog.nodes, prog.nodes[j - 1]) for j in below(prog.nodes, i)) or not disjoint_features(prog, i):
        return
    for _ in range(reps):
        info_event(tr, rng, prog, i, scope, nv, "exact", name)
    if m.out_shape.channels == 1 and reps:
        info_event(tr, rng, prog, i, scope, nv, "mc", name)
    for _ in range(reps):
        evidence_event(tr, rng, prog, i, scope, vt, nv, name)


def replay(job, rng, idx):
    kind_, payload, reps = job
    tr = Trace(f"{kind_}{idx}")
    torch.manual_seed(rng.randrange(10 ** 6))
    if kind_ == "prog":
        prog = Prog(tr, payload)
        if not prog.mods:
            return tr
        vt = var_types(prog.nodes)
        for i in range(1, len(prog.mods) + 1):
            queries(tr, rng, prog, i, vt, prog.nodes[i - 1]["op"], reps)
        return tr
    try:
        m = GALLERY[payload][0](rng)
        prog, i = import_module(tr, m)
    except NotCovered:
        return tr
    prog.mods[i - 1] = m
    vt = var_types(prog.nodes)
    queries(tr, rng, prog, i, vt, payload, reps + 3)
    return tr


def rare(nodes, rng):
    """nearly deterministic leaves: most of a joint table is close to zero"""
    def rec(x, f):
        return [rec(y, f) for y in x] if isinstance(x[0], list) else f(x)

    def skew(d, p):
        if d == "bernoulli" and rng.random() < .7:
            return [rng.choice([1e-4, 1 - 1e-4, 2e-3])]
        if d == "categorical" and rng.random() < .7:
            k = rng.randrange(len(p))
            return [1 - 1e-4 * (len(p) - 1) if i == k else 1e-4 for i in range(len(p))]
        return p
    for n in nodes:
        if n["op"] == "leaf" and n.get("dist") in ("bernoulli", "categorical"):
            n["par"] = rec(n["par"], lambda p: skew(n["dist"], p))
    return nodes


def main(check):
    quick = check.quick()
    ps = corpus(check, .8 if quick else 5, seed=23, splits=0, grid=6)
    ps = [rare(peaked(p, check.rng), check.rng) if i % 3 == 1 else p for i, p in enumerate(ps)]
    jobs = [("prog", p, 1 if quick else 2) for p in ps] + [("zoo", g, 4 if quick else 12) for g in GALLERY for _ in range(1 if quick else 4)]
    check.run("LibTrace", pmap(replay, jobs, check.seed))
