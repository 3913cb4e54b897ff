"""C24: architecture builders produce valid circuits of the requested shape."""
from importer import *
from sampling import *

from spflow.modules.ops.split import SplitMode

MIX = [["bernoulli"], ["categorical"], ["normal"], ["bernoulli", "categorical"], ["normal", "bernoulli", "poisson"]]


def sharpen(m, rng):
    """parameters that tell components apart"""
    torch.manual_seed(rng.randrange(10 ** 6))
    with torch.no_grad():
        for name, p in m.named_parameters():
            if name.endswith("logits"):
                p.copy_(1.5 * torch.randn_like(p))
            elif name.endswith("loc"):
                p.copy_(torch.randn_like(p))


def leaves(j, rng):
    """the leaf modules of a job: (modules, their description)"""
    nv, nl = j["vars"], max(1, min(j["nl"], j["vars"]))
    vs = list(range(nv))
    if j["perm"] % 3 == 0:
        rng.shuffle(vs)
    cuts = sorted(rng.sample(range(1, nv), nl - 1)) if nv > 1 else []
    parts = [vs[a:b] for a, b in zip([0] + cuts, cuts + [nv])]
    if j["overlap"] and len(parts) > 1:
        parts[-1] = parts[-1] + [parts[0][0]]
    mods, desc = [], []
    for k, sc in enumerate(parts):
        C = j["ch"] if k == len(parts) - 1 else j["c0"]
        kinds = MIX[j["dist"] - 1]
        n = fill(leaf_node(sc, C, j["lreps"], kinds[k % len(kinds)]), rng)
        mods.append(mk_leaf(n))
        desc.append({"scope": sc, "c": C, "r": j["lreps"]})
    return mods, desc


PRIORS = [None, None, "w", "w", "zero", "nan", "short"]


def build(j, rng):
    mods, desc = leaves(j, rng)
    p = {k: j[k] for k in ("kind", "reps", "depth", "roots", "inner", "outer", "split", "nsplits", "layer", "bottom", "h", "w", "ks", "sumconv")}
    p.update(leaves=desc, prior=[], learnable=False)
    if j["kind"] == "rat":
        mode = {"none": None, "cons": SplitMode.consecutive, "int": SplitMode.interleaved}[j["split"]]
        f = lambda: RatSPN(mods, j["roots"], j["inner"], j["reps"], j["depth"], j["outer"], mode(j["nsplits"]) if mode else None, j["nsplits"])
    elif j["kind"] == "einet":
        f = lambda: Einet(mods, j["roots"], j["inner"], j["c0"], j["depth"], j["reps"], j["layer"], "bottom-up" if j["bottom"] else "top-down")
    elif j["kind"] == "conv":
        f = lambda: ConvPc(mods[0], j["h"], j["w"], j["inner"], j["depth"], j["ks"], j["reps"], j["sumconv"])
    else:
        prior = PRIORS[j["prior"] - 1]
        if prior is not None:
            k = max(j["roots"], 1)
            pr = [rng.uniform(0.1, 3) for _ in range(k)]
            if prior == "zero":
                pr[0] = 0.0
            elif prior == "nan":
                pr[-1] = NAN
            elif prior == "short":
                pr = pr + [1.0]
            p["prior"] = nums(pr)
            prior = torch.tensor(pr) if rng.random() < .5 else pr
        p["learnable"] = bool(j["perm"] % 2) and j["roots"] > 1
        f = lambda: NaiveBayes(mods[0] if len(mods) == 1 and rng.random() < .5 else mods, num_classes=j["roots"], class_prior=prior, learnable_prior=p["learnable"])
    return p, f, mods


def replay(j, rng, idx):
    tr = Trace(f"build{idx}:{j['kind']}")
    kind_ = j["kind"]
    np.random.seed(rng.randrange(10 ** 6))
    torch.manual_seed(rng.randrange(10 ** 6))
    try:
        p, f, mods = build(j, rng)
    except Exception:  # noqa: BLE001  (leaves that cannot be made: not a call of the builder)
        return tr
    tag = "build:" + kind_
    try:
        m = f()
    except Exception as e:  # noqa: BLE001
        tr.add("built", tag, p=p, accepted=False, m=0, err=repr(e)[:80])
        return tr
    naive_fixed = kind_ == "naive"
    if not naive_fixed:
        sharpen(m, rng)
    try:
        prog, i = import_module(tr, m)
    except (AttributeError, TypeError, ValueError, AssertionError) as e:
        tr.add("raise", tag, err=repr(e)[:80])
        return tr
    prog.mods[i - 1] = m
    ok, obs = tr.attempt(tag + ":observe", lambda: observe(m, not any(tainted(prog.nodes, n) for n in prog.nodes)))
    if not ok:
        return tr
    tr.add("built", tag, p=p, accepted=True, m=i, obs=obs)
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    rows = [rand_row(rng, vt, nv) for _ in range(3)]
    ok, _ = tr.attempt("ll:" + kind_, lambda: m.log_likelihood(torch.full((1, nv), NAN)))
    if not ok:
        return tr
    for _ in range(2):
        r = rand_row(rng, vt, nv)
        rows.append([x if rng.random() < .5 else NAN for x in r])
    ll_event(tr, prog, i, rows, "ll:" + kind_)
    if all(t in DOMSIZE for t in vt.values()):
        doms = {v: DOMSIZE[t] for v, t in vt.items()}
        if math.prod(doms.values()) <= 128:
            ok, out = tr.attempt("norm:" + kind_, lambda: m.log_likelihood(torch.tensor(list(joint_rows(doms, nv)))))
            if ok:
                tr.add("norm", "norm:" + kind_, m=i, out=out_tokens(out), dom=[doms[v] for v in sorted(doms)])
    for api in (True, False):
        for ev in (False, True):
            sample_batch(tr, rng, prog, i, vt, nv, 1500, ev, api, tag=f"smp:{kind_}:")
    for how in ("mpe", "evidence", "weights", "posterior"):
        mpe_batch(tr, rng, prog, i, vt, nv, how, groups=2, tag=f"mpe:{kind_}:", blank=how == "weights" or how == "mpe" and not hasattr(m, "_has_partial_evidence"))
    return tr


def main(check):
    n = 240 if check.quick() else 1500
    js = histories(check, "BuildGen", 'Kinds = {"rat", "einet", "conv", "naive"}', n, 3, check.seed)
    check.run("LibTrace", pmap(replay, js, check.seed))
