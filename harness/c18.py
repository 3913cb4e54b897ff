"""C18: copies, files, state dictionaries, mode switches and updates preserve the model."""
from importer import *
from sampling import *
from gallery import GALLERY
import copy, io, pickle
from spflow.utils.model_manager import save_model, load_model


def blank(n, rng):
    """the same node with fresh random parameters"""
    n = {k: v for k, v in n.items()}
    if n["op"] == "leaf" and n["dist"] == "cltree":
        return fill(n, rng)
    if n["op"] == "leaf":
        v = n["_variant"] if "_variant" in n else 0
        n = fill(dict(n, par=q(len(n["par"]), len(n["par"][0]), len(n["par"][0][0]), len(n["par"][0][0][0]))), rng)
        n["_variant"] = v
        return n
    if "w" in n:
        rec = lambda x: [rec(y) for y in x] if isinstance(x, list) else "?"
        return fill(dict(n, w=rec(n["w"])), rng)
    return n


def through_file(m, x):
    import tempfile
    d = tempfile.mkdtemp(dir=tmpdir())
    p = os.path.join(d, "model.pt")
    save_model(m, p)
    out = load_model(p)
    shutil.rmtree(d)
    return out


def duplicate(m, how, x):
    if how == "file":
        return through_file(m, x)
    return pickle.loads(pickle.dumps(m)) if x % 3 == 0 else copy.deepcopy(m)


def update(m, x, rng):
    """change the parameters of m the way users and optimizers do"""
    ps = [p for p in m.parameters() if p.requires_grad and p.is_floating_point() and p.numel()]
    if not ps:
        return False
    g = [0.3 * torch.rand_like(p) for p in ps]
    sparse = rng.random()
    if sparse < 0.5:  # only few entries change: the last ones, or a random few
        for d in g:
            keep = torch.zeros(d.numel())
            keep[-1 if sparse < 0.2 else rng.randrange(d.numel())] = 1.0
            d.mul_(3 * keep.reshape(d.shape))
    way = x % 6
    if way == 0:
        opt = torch.optim.SGD(ps, lr=1.0)
    if way == 1:
        opt = torch.optim.Adam(ps, lr=0.2)
    if way in (0, 1):
        for p, d in zip(ps, g):
            p.grad = d
        opt.step()
        opt.zero_grad()
    elif way == 2:
        with torch.no_grad():
            for p, d in zip(ps, g):
                p.add_(d)
    elif way == 3:
        for p, d in zip(ps, g):
            p.data.add_(d)
    elif way == 4:
        v = torch.nn.utils.parameters_to_vector(ps).detach()
        torch.nn.utils.vector_to_parameters(v + torch.cat([d.flatten() for d in g]), ps)
    else:
        for p, d in zip(ps, g):
            p.data = p.data + d
    return True


class Model:
    def __init__(self, root, mods, lo):
        self.root, self.mods, self.lo = root, mods, lo


def order(root, nodes):
    """modules below root in the order of the importer's traversal"""
    scratch = Prog(Trace("scratch"), [])
    import_module(scratch.tr, root, scratch)
    return scratch


def replay(job, rng, idx):
    program, hist = job
    tr = Trace(f"life{idx}")
    base = Prog(Trace("scratch"), program)
    if not base.mods:
        return tr
    prog = Prog(tr, [])  # prog.mods mirrors the store of the specification
    root_i = len(base.mods)
    vt = var_types(base.nodes)
    nv = max(vt) + 1

    def build(nodes_):
        b = Prog(Trace("scratch"), nodes_)
        if len(b.mods) < root_i:
            return None
        return b.mods[root_i - 1]

    def adopt(root):
        lo = len(prog.mods) + 1
        s = order(root, None)
        for m, n in zip(s.mods, s.nodes):
            prog.adopt(m, dict(n, ins=[i + lo - 1 for i in n["ins"]]), "mk")
        return Model(root, s.mods, lo)

    def of_copy(root, src):
        s = order(root, None)
        n = len(src.mods)
        tr.add("copy", "copy", lo=src.lo, hi=src.lo + n - 1)
        if [kind(a) for a in s.nodes] != [kind(a) for a in prog.nodes[src.lo - 1:src.lo - 1 + n]]:
            tr.add("raise", "copy", err="the copy has a different structure")
        lo = len(prog.mods) + 1
        for m, a in zip(s.mods, prog.nodes[src.lo - 1:src.lo - 1 + n]):
            prog.mods.append(m)
            prog.nodes.append(dict(a, ins=[i + lo - src.lo for i in a["ins"]]))
        return Model(root, s.mods, lo)

    def assign(dst, lo_src):
        tr.add("assign", "assign", lo=dst.lo, hi=dst.lo + len(dst.mods) - 1, src=lo_src)

    models = [adopt(base.mods[root_i - 1])]
    ghosts = []  # snapshots of state dictionaries: copies of the nodes no module stands for
    for h in hist:
        op, x, g = h["op"], h["x"], h["g"]
        M = models[h["i"] % len(models)]
        N = models[h["j"] % len(models)]
        n = len(M.mods)
        with torch.set_grad_enabled(g):
            if op in ("ll", "look"):
                k = M.lo + (n - 1 if op == "ll" else x % n)
                ll_event(tr, prog, k, [rand_row(rng, vt, nv) for _ in range(2)], "ll:" + kind(prog.nodes[k - 1]))
            elif op == "mode":
                M.root.train(x % 2 == 0)
            elif op in ("copy", "file") and len(models) < 5:
                ok, c = tr.attempt(op, lambda: duplicate(M.root, op, x))
                if ok:
                    models.append(of_copy(c, M))
            elif op == "step":
                ok, did = tr.attempt("step", lambda: update(M.root, x, rng))
                if ok and did:
                    for j in range(M.lo, M.lo + n):
                        if prog.nodes[j - 1]["op"] == "leaf" or "w" in prog.nodes[j - 1]:
                            m = copy.deepcopy(prog.mods[j - 1])
                            m.train()
                            with torch.enable_grad():
                                new = read_node(m, dict(prog.nodes[j - 1]))
                            prog.nodes[j - 1] = new
                            tr.add("upd", "step", j=j, node=to_spec(new))
            elif op == "load" and M is not N:
                sd = N.root.state_dict()
                kw = {"assign": True} if x % 3 == 0 else {}
                if kw:
                    sd = {k: v.clone() for k, v in sd.items()}
                ok, _ = tr.attempt("load", lambda: M.root.load_state_dict(sd, **kw))
                if ok:
                    assign(M, N.lo)
            elif op == "snap" and len(ghosts) < 2:
                buf = io.BytesIO()
                torch.save(M.root.state_dict(), buf)
                lo = len(prog.mods) + 1
                tr.add("copy", "snap", lo=M.lo, hi=M.lo + n - 1)
                prog.mods += [None] * n
                prog.nodes += [dict(a) for a in prog.nodes[M.lo - 1:M.lo - 1 + n]]
                ghosts.append((buf.getvalue(), lo))
            elif op == "restore" and ghosts:
                data, lo = ghosts[x % len(ghosts)]
                ok, _ = tr.attempt("restore", lambda: M.root.load_state_dict(torch.load(io.BytesIO(data)), **({"assign": True} if x % 3 == 0 else {})))
                if ok:
                    assign(M, lo)
            elif op == "fresh" and len(models) < 5:
                ok, r = tr.attempt("fresh", lambda: build([blank(a, rng) for a in program]))
                if ok and r is not None:
                    F = adopt(r)
                    if x % 2 == 0:
                        r.eval()
                        with torch.no_grad():
                            r.log_likelihood(torch.tensor([rand_row(rng, vt, nv)]))
                    ok, _ = tr.attempt("fresh:load", lambda: r.load_state_dict(M.root.state_dict()))
                    if ok:
                        assign(F, M.lo)
                    models.append(F)
            # the harness' own node list only matters for routing: keep it in step with assign
            if op in ("load", "restore", "fresh") and tr.events and tr.events[-1]["e"] == "assign":
                a = tr.events[-1]
                for k in range(a["lo"], a["hi"] + 1):
                    prog.nodes[k - 1] = dict(prog.nodes[a["src"] + k - a["lo"] - 1], ins=prog.nodes[k - 1]["ins"])
            if op == "mpe":
                i = M.lo + n - 1
                if tree_ok(prog.nodes, i) and not tainted(prog.nodes, prog.nodes[i - 1]) and not any(
                        prog.nodes[a - 1]["op"] == "rmix" and prog.mods[a - 1].out_shape.features > 1 for a in below(prog.nodes, i) | {i}):
                    mpe_batch(tr, rng, prog, i, vt, nv, "life", groups=1)
    for M in models:
        for way in (0, 1):
            M.root.eval() if way else M.root.train()
            with torch.set_grad_enabled(not way):
                k = M.lo + len(M.mods) - 1
                ll_event(tr, prog, k, [rand_row(rng, vt, nv)], "ll:" + kind(prog.nodes[k - 1]))
    return tr


def reps_of(m):
    """repetitions to choose from when sampling: those the sampler itself offers"""
    return getattr(m, "num_repetitions", None) or m.out_shape.repetitions


def opaque(job, rng, idx):
    name, hist = job
    tr = Trace(f"opaque:{name}{idx}")
    build, data, caps = GALLERY[name]
    ok, made = tr.attempt("build:" + name, lambda: build(rng))
    if not ok:
        return tr
    X = data(made, rng)
    models = [made]
    tr.add("new", "new:" + name)
    snaps = []

    def ask(i, what, sub):
        m = models[i]
        if what == "ll":
            f = lambda: m.log_likelihood(X[sub].clone()).detach().flatten().tolist()
        elif what == "soft":  # differentiable sampling: the states of a module must reach it as well
            def f():
                s = torch.get_rng_state()
                torch.manual_seed(7 + sub)
                try:
                    C, R = m.out_shape.channels, reps_of(m)
                    one = lambda k, K: torch.nn.functional.one_hot(torch.full((3,), k % K), K).double()
                    F = m.out_shape.features
                    ctx = SamplingContext(channel_index=one(sub, C)[:, None, :].repeat(1, F, 1), repetition_index=one(sub, R),
                                          mask=torch.ones(3, F, dtype=torch.bool), is_differentiable=True)
                    x = torch.full((3, max(m.scope.query) + 1), math.nan)
                    return m._sample(x, ctx, Cache()).detach().double().flatten().tolist()
                finally:
                    torch.set_rng_state(s)
        elif what == "sample":
            def f():
                s = torch.get_rng_state()
                torch.manual_seed(5 + sub)
                try:
                    return m.sample(num_samples=3).detach().double().flatten().tolist()
                finally:
                    torch.set_rng_state(s)
        else:
            f = lambda: [*sorted(map(int, m.scope.query)), *map(int, tuple(m.out_shape)), sum(p.numel() for p in m.parameters())]
        ok_, a = tr.attempt(f"{what}:{name}", f)
        if ok_:
            tr.add("ask", f"{what}:{name}", m=i + 1, p=f"{what}{sub}", a=nums(a))

    for h in hist:
        op, x, g = h["op"], h["x"], h["g"]
        i, j = h["i"] % len(models), h["j"] % len(models)
        M = models[i]
        with torch.set_grad_enabled(g):
            if op == "ll":
                ask(i, "ll", x % len(X))
            elif op == "mpe" and "sample" in caps:
                ask(i, "sample", x % 2)
                if "soft" in caps:
                    ask(i, "soft", x % 2)
            elif op == "look":
                ask(i, "shape", 0)
                tr.add("flag", "flag:" + name, m=i + 1, a=bool(M.training))
            elif op == "mode":
                M.train(x % 2 == 0)
                tr.add("mode", "mode", m=i + 1, a=x % 2 == 0)
            elif op in ("copy", "file") and len(models) < 5:
                ok, c = tr.attempt(f"{op}:{name}", lambda: duplicate(M, op, x))
                if ok:
                    models.append(c)
                    tr.add("copy", op, m=i + 1)
            elif op == "step":
                if update(M, x, rng):
                    tr.add("step", "step", m=i + 1)
            elif op == "load" and i != j and "sd" in caps:
                sd = {k: v.clone() for k, v in models[j].state_dict().items()}
                ok, _ = tr.attempt("load:" + name, lambda: M.load_state_dict(sd, **({"assign": True} if x % 3 == 0 else {})))
                if ok:
                    tr.add("load", "load", m=i + 1, src=j + 1)
            elif op == "fresh" and len(models) < 5 and "fresh" in caps:
                ok, c = tr.attempt("fresh:" + name, lambda: build(rng))
                if ok:
                    if x % 2 == 0:
                        c.eval()
                        with torch.no_grad():
                            c.log_likelihood(X[0].clone())
                        c.train()
                    ok, _ = tr.attempt("fresh:load:" + name, lambda: c.load_state_dict(M.state_dict()))
                    if ok:
                        models.append(c)
                        tr.add("new", "fresh")
                        tr.add("load", "fresh", m=len(models), src=i + 1)
    for i in range(len(models)):
        for way in (0, 1):
            models[i].train(not way)
            tr.add("mode", "mode", m=i + 1, a=not way)
            with torch.set_grad_enabled(not way):
                for s in range(len(X)):
                    ask(i, "ll", s)
        ask(i, "shape", 0)
        if "sample" in caps:
            ask(i, "sample", 0)
        if "soft" in caps:
            ask(i, "soft", 0)
    return tr


def main(check):
    qk = check.quick()
    L_ = 16 if qk else 24
    ps = corpus(check, 0.7 if qk else 4, seed=18) + [check.rng.choice(sinks(p)) for p in directed_programs(check.rng, not qk)]
    reps = 2 if qk else 6
    hs = histories(check, "LifeGen", f"MaxLen = {L_}", len(ps) + reps * len(GALLERY), L_, check.seed)
    while len(hs) < len(ps) + reps * len(GALLERY):
        hs = hs + hs
    def sweep(i):  # evaluation alternating with updates, everything remembered from before must be noticed as stale
        h = lambda op, x, g=False: {"op": op, "x": x, "g": g, "i": 0, "j": 0}
        return [h("mode", 1)] + [h(*z) for k in range(6) for z in (("ll", 0, k == 3), ("step", i + k))] + [h("ll", 0)]
    few = [s for p in directed_programs(check.rng, not qk) for s in sinks(p)]
    a = pmap(replay, list(zip(ps, hs)) + [(p, sweep(i)) for i, p in enumerate(few)], check.seed)
    check.run("LibTrace", a)
    names = [n for n in sorted(GALLERY) for _ in range(reps)]
    b = pmap(opaque, list(zip(names, hs[len(ps):])), check.seed + 1)
    check.run("LifeTrace", b)
