"""C13: routing state of sampling contexts: histories of operations, one-hot picking, recorded leaf parameters."""
from sampling import *
import sampling as S_
from spflow.utils.sampling_context import update_channel_index_strict, index_tensor, sample_from_logits, to_one_hot

NONE = {"dt": "none", "dev": "cpu", "shape": [], "v": []}


def dt_of(t):
    return "bool" if t.dtype == torch.bool else ("float" if t.is_floating_point() else "int")


def vals(t):
    if t.device.type == "meta":
        return []
    return nums(t) if t.is_floating_point() else t.tolist()


def arg(t):
    return NONE if t is None else {"dt": dt_of(t), "dev": t.device.type, "shape": list(t.shape), "v": vals(t)}


def state(c):
    return {"diff": c.is_differentiable, "ci": vals(c.channel_index), "mask": vals(c.mask), "rep": vals(c.repetition_index)}


def faulty(t, fault, rng):
    if fault == "dtype":
        return t.to(torch.float64) if t.dtype != torch.float64 else (t != 0 if rng.random() < 0.5 else t.to(torch.int64))
    if fault == "rank":
        return t[..., None] if rng.random() < 0.5 else t[0]
    if fault == "batch":
        return torch.cat([t, t[:1]])
    if fault == "width":
        return torch.cat([t, t[:, :1]], dim=1) if t.ndim > 1 else t[:, None].repeat(1, 2)
    if fault == "device":
        return t.to("meta")
    return t


def soft(rng, shape):
    """rows over channels: one-hot, fractional or all zero"""
    t = torch.tensor(np.array([rng.choice((0, 0, 1, 2, 5)) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape))
    s = t.sum(-1, keepdim=True)
    return torch.where(s > 0, t / s.clamp_min(1), t) if rng.random() < 0.8 else t


def ci_arg(rng, diff, b, w, c):
    if diff:
        return soft(rng, (b, w, c))
    lo, hi = (0, c) if rng.random() < 0.85 else (-2, c + 2)
    return torch.tensor([[rng.randrange(lo, hi) for _ in range(w)] for _ in range(b)], dtype=rng.choice((torch.int64, torch.int64, torch.int32, torch.uint8 if lo == 0 else torch.int16)))


def mask_arg(rng, b, w):
    p = rng.choice((0.2, 0.7, 1.0))
    return torch.tensor([[rng.random() < p for _ in range(w)] for _ in range(b)])


def rep_arg(rng, diff, b, r):
    if diff:
        return soft(rng, (b, r))
    t = torch.tensor([rng.randrange(r) for _ in range(b)])
    return t[:, None] if rng.random() < 0.3 else t


def replay(hist, rng, idx):
    tr = Trace(f"ctx{idx}")
    ctxs, meta = [], []

    def record(e, k, fn, extra, fork=False, new=None):
        ev = dict(extra, k=k, raised=False, out=[])
        try:
            o = fn()
        except Exception as x:  # noqa: BLE001
            ev.update(raised=True, err=f"{type(x).__name__}: {x}"[:160])
            if os.environ.get("SPV_TB"):
                traceback.print_exc()
        else:
            if fork or e == "new":
                ctxs.append(o)
                meta.append(new if e == "new" else meta[k - 1])
            elif e in ("slice", "route"):
                ev["out"] = [{"ci": vals(a), "mask": vals(m)} for a, m in o]
            elif e == "rows":
                ev["out"] = vals(o)
        ev["flags"] = all(m == (c.is_mpe, c.tau, c.return_leaf_params, c.is_differentiable, id(c._leaf_param_records)) or
                          m[:4] == (c.is_mpe, c.tau, c.return_leaf_params, c.is_differentiable) and m[4] is None
                          for m, c in zip(meta, ctxs))
        ev["all"] = [state(c) for c in ctxs]
        tr.add(e, e, **ev)
        return not ev["raised"]

    for h in hist:
        op = h["op"]
        if h["fc"] == "device":  # at most one argument lies elsewhere
            h = dict(h, fm="ok" if h["fm"] == "device" else h["fm"], fr="ok" if h["fr"] == "device" else h["fr"])
        elif h["fm"] == "device" and h["fr"] == "device":
            h = dict(h, fr="ok")
        if op == "new":
            diff = rng.random() < 0.4
            flags = dict(is_mpe=rng.random() < 0.5, tau=rng.choice((1.0, 0.5, 2.0, 0.03, 0.0, -1.0)) if h["x"] == 1 else rng.choice((1.0, 0.5, 0.03)),
                         return_leaf_params=rng.random() < 0.5)
            ci = None if h["fc"] == "none" else faulty(ci_arg(rng, diff, h["b"], h["w"], h["c"]), h["fc"], rng)
            m = None if h["fm"] == "none" or rng.random() < 0.2 else faulty(mask_arg(rng, h["b"], h["w"]), h["fm"], rng)
            r = None if h["fr"] == "none" or rng.random() < 0.2 else faulty(rep_arg(rng, diff, h["b"], h["r"]), h["fr"], rng)
            if ci is not None and ci.device.type == "meta" and m is None and r is None:
                r = rep_arg(rng, diff, h["b"], h["r"])
            n = -1
            if h["x"] == 0:
                n = h["b"]
                if rng.random() < 0.8:
                    ci = m = r = None
            kw = {k: v for k, v in (("channel_index", ci), ("mask", m), ("repetition_index", r)) if v is not None}
            if n != -1:
                kw["num_samples"] = n
            record(op, 1, lambda: SamplingContext(is_differentiable=diff, **flags, **kw),
                   dict(diff=diff, n=n, ci=arg(ci), mask=arg(m), rep=arg(r), tau=num(flags["tau"])),
                   new=(flags["is_mpe"], flags["tau"], flags["return_leaf_params"], diff, None))
            continue
        if not ctxs:
            continue
        k = (h["k"] - 1) % len(ctxs) + 1
        c = ctxs[k - 1]
        diff = c.is_differentiable
        b, w = c.mask.shape[0], h["w"] if rng.random() < 0.3 else c.mask.shape[1]
        nc = c.channel_index.shape[2] if diff else h["c"]
        W = c.channel_index.shape[1]
        ci = faulty(ci_arg(rng, diff, b, w, h["c"]), h["fc"], rng)
        m = faulty(mask_arg(rng, b, w), h["fm"], rng)
        r = faulty(rep_arg(rng, diff, b, h["r"]), h["fr"], rng)
        if op == "copy":
            if record(op, k, c.copy, {}, fork=True):
                j = len(ctxs)
                if rng.random() < 0.5:
                    d = ctxs[j - 1]
                    with torch.no_grad():
                        for t in (d.channel_index, d.mask, d.repetition_index):
                            t.copy_(t == 0)
                    record("poke", j, lambda: None, {})
        elif op == "with_routing":
            record(op, k, lambda: c.with_routing(channel_index=ci, mask=m), dict(ci=arg(ci), mask=arg(m)), fork=True)
        elif op == "update":
            if rng.random() < 0.25:  # another batch size, with or without a repetition index of that size
                nb = h["b"]
                ci, m = faulty(ci_arg(rng, diff, nb, w, h["c"]), h["fc"], rng), faulty(mask_arg(rng, nb, w), h["fm"], rng)
                r = rng.choice((None, r, rep_arg(rng, diff, nb, h["r"])))
            r = None if rng.random() < 0.3 else r
            record(op, k, lambda: c.update(channel_index=ci, mask=m, **({} if r is None else {"repetition_index": r})),
                   dict(ci=arg(ci), mask=arg(m), rep=arg(r)))
        elif op in ("set_ci", "set_mask", "set_rep", "strict"):
            v, name = {"set_ci": (ci, "channel_index"), "set_mask": (m, "mask"), "set_rep": (None if h["fr"] == "none" else r, "repetition_index"),
                       "strict": (ci, "channel_index")}[op]
            key = {"set_ci": "ci", "set_mask": "mask", "set_rep": "rep", "strict": "ci"}[op]
            record(op, k, (lambda: update_channel_index_strict(c, v)) if op == "strict" else (lambda: setattr(c, name, v)), {key: arg(v)})
        elif op == "share_rep":
            n = h["r"]
            record(op, k, lambda: c.share_single_repetition(n), dict(n=n))
        elif op == "share_chan":
            record(op, k, c.share_single_channel, {})
        elif op == "require":
            record(op, k, lambda: c.require_feature_width(expected_features=w), dict(w=w))
        elif op == "broadcast":
            allow = rng.random() < 0.7
            record(op, k, lambda: c.broadcast_feature_width(target_features=h["w"], allow_from_one=allow), dict(w=h["w"], allow=allow))
        elif op == "repeat_split":
            n = h["x"]
            t = W * n if rng.random() < 0.6 else h["w"]
            record(op, k, lambda: c.repeat_split_feature_width(num_splits=n, target_features=t), dict(n=n, w=t))
        elif op == "scatter":
            g = rng.randint(1, 3)
            t = W * g
            perm_ = list(range(t))
            rng.shuffle(perm_)
            gs = [perm_[i * W:(i + 1) * W] for i in range(g)]
            fault = rng.randrange(8)
            if fault == 0:
                gs[0] = [gs[0][0] + 1] + gs[0][1:]
            elif fault == 1:
                t += 1
            elif fault == 2 and g > 1:
                gs[0], gs[1] = gs[0] + gs[1][:1], gs[1][1:]
            elif fault == 3:
                gs = gs + [gs[0]]
            record(op, k, lambda: c.scatter_split_groups_to_input_width(index_groups=gs, input_features=t), dict(groups=gs, w=t))
        elif op == "slice":
            rs = []
            for _ in range(rng.randint(1, 3)):
                a, z = sorted((rng.randint(0, W), rng.randint(0, W)))
                rs.append([a, z])
            if rng.random() < 0.2:
                rs[-1] = rng.choice(([-1, 1], [0, W + 1], [1, 0]))
            record(op, k, lambda: c.slice_feature_ranges([tuple(x) for x in rs]), dict(ranges=rs))
        elif op == "route":
            cs = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
            if diff and nc > 1 and rng.random() < 0.8:
                a = rng.randint(1, nc - 1)
                cs = [a, nc - a]
            elif diff:
                cs = [nc]
            if rng.random() < 0.1:
                cs[0] = 0
            record(op, k, lambda: c.route_channel_offsets(child_channel_counts=cs), dict(counts=cs))
        elif op == "validate":
            some = lambda right, other: -1 if rng.random() < 0.3 else (right if rng.random() < 0.75 else other)
            nr = c.repetition_index.shape[1] if diff else h["r"]
            a = dict(n=some(b, h["b"]), f=some(W, h["w"]), c=some(nc, rng.choice((0, h["c"]))), r=some(nr, rng.choice((0, h["r"]))),
                     widths=[] if rng.random() < 0.7 else rng.choice(([1, W], [h["w"], h["w"] + 1])))
            names = {"n": "num_samples", "f": "num_features", "c": "num_channels", "r": "num_repetitions"}
            kw = {names[x]: a[x] for x in names if a[x] != -1}
            if a["widths"]:
                kw["allowed_feature_widths"] = tuple(a["widths"])
            record(op, k, lambda: c.validate_sampling_context(**kw), a)
        elif op == "rows":
            record(op, k, lambda: c.samples_mask, {})
    return tr


def picking(job, rng, idx):
    """an entry read by index is the entry read by the one-hot vector of that index, wherever the axis lies"""
    tr = Trace(f"pick{idx}")
    for _ in range(job):
        b, n = rng.randint(1, 4), rng.randint(1, 4)
        tab = torch.tensor([[rng.choice((-math.inf, 0.0, round(rng.uniform(-3, 3), 3))) if rng.random() < 0.3 else round(rng.uniform(-3, 3), 3)
                             for _ in range(n)] for _ in range(b)])
        idx_ = [rng.randrange(n) for _ in range(b)]
        dim = rng.choice((1, 2, -1))
        full = tab[:, :, None] if dim == 1 else tab[:, None, :]
        it = torch.tensor(idx_)
        it = it[:, None, None]
        ok, o = tr.attempt("pick", lambda: (index_tensor(full, it, dim=dim).reshape(b),
                                            index_tensor(full, to_one_hot(torch.tensor(idx_)[:, None], dim=dim, dim_size=n, dtype=torch.float64), dim=dim,
                                                         is_differentiable=True).reshape(b)))
        if ok:
            tr.add("pick", "pick", tab=nums(tab), idx=idx_, out=nums(o[0]), hot=nums(o[1]))
        lg = tab.clone()
        lg[torch.isneginf(lg).all(1)] = 0.0
        act = [rng.random() < 0.7 for _ in range(b)]
        m = torch.tensor(act)[:, None]
        mode = rng.random() < 0.5
        if mode:
            ok, o = tr.attempt("argmax", lambda: (sample_from_logits(lg[:, None, :], dim=-1, is_mpe=True, is_differentiable=False, mask=m).reshape(b),
                                                  sample_from_logits(lg[:, None, :], dim=-1, is_mpe=True, is_differentiable=True, tau=rng.choice((0.5, 1.0, 2.0)),
                                                                     mask=m).reshape(b, n)))
            if ok:
                tr.add("argmax", "argmax", tab=nums(lg), idx=o[0].tolist(), hot=nums(o[1]), act=act)
        else:
            # entries of zero probability are never drawn
            peak = torch.full((b, n), -math.inf)
            peak[torch.arange(b), torch.tensor(idx_)] = 0.0
            ok, o = tr.attempt("sure", lambda: (sample_from_logits(peak[:, None, :], dim=-1, is_mpe=False, is_differentiable=False, mask=m).reshape(b),
                                                sample_from_logits(peak[:, None, :], dim=-1, is_mpe=False, is_differentiable=True, mask=m).reshape(b, n)))
            if ok:
                tr.add("argmax", "sure", tab=nums(peak), idx=o[0].tolist(), hot=nums(o[1]), act=act)
    for bad in ((torch.tensor(1), 0, 2), (torch.tensor([1]), 0, 0), (torch.tensor([2]), 0, 2), (torch.tensor([-1]), 1, 2), (torch.tensor([0]), 2, 2),
                (torch.tensor([0]), -3, 2)):
        tr.must_raise("to_one_hot", lambda: to_one_hot(*bad))
    return tr


def tight(prog, rng):
    """every Normal leaf gets distinct means and almost no spread, so that a sample tells which component drew it"""
    used = set()
    with torch.no_grad():
        for m, n in zip(prog.mods, prog.nodes):
            if n["op"] != "leaf":
                continue
            for i in np.ndindex(*m.loc.shape):
                while True:
                    v = round(rng.uniform(-50, 50), 2)
                    if v not in used:
                        break
                used.add(v)
                m.loc[i] = v
            m.log_scale.fill_(math.log(1e-6))


def sure(prog, rng):
    """every Categorical leaf gets components concentrated on one category each"""
    k, K = rng.randrange(40), 40
    with torch.no_grad():
        for m, n in zip(prog.mods, prog.nodes):
            if n["op"] != "leaf":
                continue
            m.K = K
            t = torch.full((*m._logits.shape[:-1], K), -90.0)
            for i in np.ndindex(*t.shape[:-1]):
                k = (k + 1) % K
                t[i][k] = 1.0
            m._logits = torch.nn.Parameter(t)


def records(job, rng, idx):
    """parameters recorded for the entries of a sample are those of the component that drew it"""
    nodes, nvars = [], 1 + max(v for n in job for v in n.get("scope", []))
    family = "categorical" if idx % 3 == 0 else "normal"
    for n in job:
        n = dict(n)
        if n["op"] == "leaf":
            n.update(dist=family, par=[[["?" for _ in f] for f in r] for r in n["par"]])
        nodes.append(fill(n, rng) if "'?'" in repr(n) else n)
        nodes[-1]["_variant"] = n.get("_variant", rng.randint(0, 1))
    tr = Trace(f"rec{idx}")
    prog = Prog(Trace("mk"), nodes)
    nodes = prog.nodes
    (tight if family == "normal" else sure)(prog, rng)
    leaves = {id(m): m for m, n in zip(prog.mods, nodes) if n["op"] == "leaf"}
    for i, m in enumerate(prog.mods, 1):
        n = nodes[i - 1]
        if n["op"] in ("rmix",) and m.out_shape.features > 1 or tainted(nodes, n):
            continue
        F, C, R = shape_of(nodes, prog, i)
        b = rng.choice((1, 2, 3, 3, 4))
        scope = list(m.scope.query)
        data = torch.full((b, nvars), math.nan)
        for rr in range(b):
            for v in range(nvars):
                if rng.random() < 0.25:
                    data[rr, v] = 0.5
        missing = [[bool(torch.isnan(data[rr, v])) and v in scope for v in range(nvars)] for rr in range(b)]
        for how in ("ctx", "api"):
            d = data.clone() if how == "ctx" else torch.full((b, nvars), math.nan)
            miss = missing if how == "ctx" else [[v in scope for v in range(nvars)]] * b
            if how == "ctx":
                ci = torch.tensor([[rng.randrange(C)] * F if rng.random() < 0.3 else [rng.randrange(C) for _ in range(F)] for _ in range(b)])
                rep = torch.tensor([rng.randrange(R) for _ in range(b)])
                diff = rng.random() < 0.3
                if diff:
                    kw = dict(channel_index=to_one_hot(ci, 2, C, torch.float64), repetition_index=to_one_hot(rep, 1, R, torch.float64))
                else:
                    kw = dict(channel_index=ci, repetition_index=rep)
                ctx = SamplingContext(mask=torch.ones((b, F), dtype=torch.bool), is_differentiable=diff, is_mpe=rng.random() < 0.3, return_leaf_params=True, **kw)

                def go():
                    out = m._sample(data=d, sampling_ctx=ctx, cache=Cache())
                    return out, ctx.leaf_param_records()
            else:
                def go():
                    return m.sample_with_evidence(evidence=d, return_leaf_params=True) if rng.random() < 0.5 else m.mpe(data=d, return_leaf_params=True)
            ok, o = tr.attempt("records:" + kind(n), go)
            if not ok:
                continue
            out, recs = o
            rs = []
            for q_ in recs:
                known = q_.leaf_id in leaves and q_.leaf_type == type(leaves[q_.leaf_id]).__name__ \
                    and set(q_.scope_cols) <= set(leaves[q_.leaf_id].scope.query) and set(q_.params) >= ({"loc", "scale"} if family == "normal" else {"logits"})
                rs.append({"cols": list(q_.scope_cols), "active": q_.active_mask.tolist(), "loc": nums(q_.params["loc"] if family == "normal" else q_.params["logits"].argmax(-1).double()), "known": bool(known)})
            tr.add("records", "records:" + kind(n), missing=miss, out=nums(torch.nan_to_num(out, nan=-777.0)), recs=rs)
    return tr


def cell_errors(job, rng, idx):
    """leaves that cannot record their parameters say so"""
    tr = Trace(f"norec{idx}")
    cl = CLTree(scope=Scope([0, 1]), out_channels=1, K=2, parents=torch.tensor([-1, 0]))
    tr.must_raise("cltree", lambda: cl.sample(num_samples=2, return_leaf_params=True))
    pl = PiecewiseLinear(scope=Scope([0]))
    tr.must_raise("piecewise", lambda: pl.sample(num_samples=2, return_leaf_params=True))
    return tr


def main(check):
    qk = check.quick()
    L_ = 14
    hs = histories(check, "CtxGen", f"MaxLen = {L_}", 1500 if qk else 8000, L_, check.seed)
    ts = pmap(replay, hs, check.seed)
    ts += pmap(picking, [60] * (8 if qk else 60), check.seed + 1)
    ps = corpus(check, 0.5 if qk else 3, disc=0, seed=13, contdists=["normal"]) + directed_programs(check.rng, not qk)
    ps = [p for p in ps if not any(n.get("dist") == "cltree" for n in p)]
    ts += pmap(records, ps, check.seed + 2)
    ts += pmap(cell_errors, [0], check.seed)
    check.run("CtxTrace", ts)
