"""C11: construction accepts exactly well-formed circuits and reports true scopes and shapes."""
from circuits import *
import conditional

W1 = ["sum", "cat2", "esum", "prod", "cat1", "eprod", "oprod", "einsum", "linsum", "fact", "rmix"]


def fillw(dims, rng, last=1):
    """nested weights of the given dims, normalised over the last `last` axes"""
    if len(dims) == last:
        k = int(np.prod(dims))
        return np.array(simplex(rng, k)).reshape(dims).tolist()
    return [fillw(dims[1:], rng, last) for _ in range(dims[0])]


def jitter(rng, dims, p):
    dims = list(dims)
    if rng.random() < p:
        j = rng.randrange(len(dims))
        dims[j] = max(1, dims[j] + rng.choice([-1, 1]))
    return dims


def rand_split(rng, F):
    kind_ = rng.choice(["cons", "int", "idx"])
    k = rng.choice([2, 2, 2, 3, 4])
    if kind_ != "idx":
        return {"kind": kind_, "k": k, "idx": []}
    p = list(range(F))
    rng.shuffle(p)
    m = max(1, F // k)
    idx = [p[i * m:(i + 1) * m] for i in range(k)]
    idx = [x for x in idx if x] or [[0]]
    z = rng.randint(0, 5)
    if z == 0 and len(idx) > 1:
        idx[1][0] = idx[0][0]  # duplicate
    if z == 1:
        idx[0][0] = F  # out of range
    if z == 2:
        idx[-1] = idx[-1][:-1] or idx[-1]  # unequal / missing
    return {"kind": "idx", "k": len(idx), "idx": idx}


def rand_node(rng, prog):
    ok = [i for i in range(1, len(prog.mods) + 1)
          if not any(tainted(prog.nodes, prog.nodes[j - 1]) for j in below(prog.nodes, i) | {i})
          and not uses(prog.nodes, i, "cltree")]
    if not ok:
        return None
    op = rng.choice(W1)
    shp = lambda i: (prog.mods[i - 1].out_shape.features, prog.mods[i - 1].out_shape.channels, prog.mods[i - 1].out_shape.repetitions)
    i = rng.choice(ok)
    F, C, R = shp(i)
    # partners: mostly similar shapes so that a single rule decides
    near = [j for j in ok if j != i and shp(j)[0] == F] or ok
    sc = lambda j: set(int(v) for v in prog.mods[j - 1].scope.query)
    if op in ("sum", "cat2", "esum"):
        near = [j for j in near if sc(j) == sc(i)] if rng.random() < 0.7 else near
    elif rng.random() < 0.7:
        near = [j for j in near if not (sc(j) & sc(i))] or near
    ins = [i] + [rng.choice(near) for _ in range(rng.choice([0, 1, 1, 2]) if near else 0)]
    Cs = [shp(j)[1] for j in ins]
    Rm = max(shp(j)[2] for j in ins)
    n = {"op": op, "ins": ins, "split": dict(NOSPLIT), "_variant": rng.randint(0, 1)}
    co = rng.randint(1, 3)
    jp = 0.3
    if op == "sum":
        n["w"] = fillw(jitter(rng, [rng.choice([Rm, Rm, Rm, 1, 2]), F, co, sum(Cs)], jp), rng)
    elif op == "esum":
        if len(ins) < 2:
            return None
        n["w"] = fillw(jitter(rng, [Rm, F, max(Cs), co, len(ins)], jp), rng)
    elif op == "rmix":
        n["ins"] = ins[:1]
        n["w"] = fillw(jitter(rng, [F, C, R], jp), rng)
    elif op in ("cat1", "cat2"):
        if len(ins) < 2:
            return None
    elif op in ("eprod", "oprod"):
        if len(ins) < 2 or rng.random() < 0.3:
            n["ins"] = ins[:1]
            n["split"] = rand_split(rng, F)
    elif op in ("einsum", "linsum"):
        if len(ins) < 2 or rng.random() < 0.3:
            n["ins"] = ins[:1]
            n["split"] = rand_split(rng, F)
            Fo, cl, cr = max(1, F // 2), C, C
        else:
            n["ins"] = ins[:2]
            Fo, cl, cr = F, Cs[0], Cs[1]
        n["w"] = fillw(jitter(rng, [Rm, Fo, co] + ([cl, cr] if op == "einsum" else [cl]), jp), rng, 2 if op == "einsum" else 1)
    elif op == "fact":
        n["depth"] = rng.choice([1, 1, 2, 3])
        n["reps"] = rng.choice([R, R, 1, 2])
        n["groups"] = [[] for _ in range(n["reps"])]
        n["ins"] = list(dict.fromkeys(ins)) if rng.random() < 0.5 else ins
        n["_variant"] = 0
    return n


def attempt(tr, rng, prog, vt, nv):
    n = rand_node(rng, prog)
    if n is None:
        return
    record(tr, rng, prog, n, nv, vt)


def leafn(scope, C, R, rng):
    return fill({"op": "leaf", "ins": [], "dist": "bernoulli", "scope": list(scope), "aux": [],
                 "par": [[[["?"]] * C for _ in scope] for _ in range(R)]}, rng)


def record(tr, rng, prog, n, nv, vt):
    """one constructor call plus one evaluation, whatever happens"""
    row = rand_row(rng, vt, nv)
    ev = {"node": to_spec(n), "row": nums(row), "ctor": False, "accepted": False, "out": [], "shape": [], "err": "",
          "dbg": [f"{prog.mods[j - 1].out_shape} {fs_of(prog.mods[j - 1])}"[:160] for j in n["ins"]]}
    try:
        m = mk_node(n, prog.mods)
        ev["ctor"] = True
        out = m.log_likelihood(torch.tensor([row]))
        ev["shape"] = [m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions]
        if out.dim() != 4 and n["op"] != "rmix":
            raise ValueError("output dims")
        ev["out"] = out_tokens(out)[0]
        if n["op"] == "rmix":
            ev["shape"][2] = 1  # known finding: reports the input's repetitions
        if not tainted(prog.nodes + [n], n):
            ev["fs"] = fs_of(m)
        ev["accepted"] = True
    except Exception as x:  # noqa: BLE001
        ev["err"] = f"{type(x).__name__}: {x}"[:150]
    tr.add("try", "try:" + kind(n), **ev)


def weights_for(n, shapes, rng):
    """weights that fit the inputs' shapes as far as that is possible"""
    Fs, Cs, Rs = zip(*shapes)
    R, op = max(Rs), n["op"]
    if op == "sum":
        n["w"] = fillw([R, Fs[0], 2, sum(Cs)], rng)
    elif op == "esum":
        n["w"] = fillw([R, Fs[0], max(Cs), 2, len(Cs)], rng)
    elif op == "rmix":
        n["w"] = fillw([Fs[0], Cs[0], R], rng)
    elif op == "einsum":
        n["w"] = fillw([R, Fs[0], 2, Cs[0], Cs[1]], rng, 2)
    elif op == "linsum":
        n["w"] = fillw([R, Fs[0], 2, Cs[0]], rng)
    elif op == "fact":
        n.update(depth=1, reps=R, groups=[[]] * R, _variant=0)  # the grouping is drawn by the constructor
    return n


def directed(rng, ops):
    """Every single deviation at every position of an otherwise well-formed n-ary node."""
    out = []
    for op in ops:
        mix = op in ("sum", "cat2", "esum")
        for arity in ([2] if op in ("einsum", "linsum") else [2, 3, 4]):
            tr = Trace(f"directed:{op}:{arity}")
            prog = Prog(tr, [])
            add = lambda sc, C, R: (prog.mk(leafn(sc, C, R, rng)), len(prog.mods))[1]
            base = [([0, 1] if mix else [2 * p, 2 * p + 1], 2, 2) for p in range(arity)]
            cases = [list(base)]
            for p in range(arity):
                def dev(sc=None, C=None, R=None):
                    b = list(base)
                    b[p] = (sc or b[p][0], C or b[p][1], R or b[p][2])
                    cases.append(b)
                if mix:
                    for sc in ([0, 2], [1, 0], [0], [0, 1, 2], [2, 3]):
                        dev(sc)
                else:
                    for q in range(arity):
                        if q != p:
                            dev([base[p][0][0], base[q][0][1]])
                            dev([base[q][0][0], base[p][0][1]])
                    dev([9])
                    dev([8, 9, 10])
                for C in (1, 3):
                    dev(C=C)
                for R in (1, 3):
                    dev(R=R)
            ids = {}
            for case in cases:
                ins = []
                for sc, C, R in case:
                    k = (tuple(sc), C, R)
                    if k not in ids:
                        ids[k] = add(sc, C, R)
                    ins.append(ids[k])
                vt = var_types(prog.nodes)
                n = {"op": op, "ins": ins, "split": dict(NOSPLIT), "_variant": rng.randint(0, 1)}
                shapes = [(len(sc), C, R) for sc, C, R in case]
                record(tr, rng, prog, weights_for(n, shapes, rng), 11, {v: "bernoulli" for v in range(11)})
            out.append(tr)
    return out


def replay(nodes, rng, idx, tries=6):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, [])
    for n in nodes:
        if not prog.mk(n, obs=True):
            break
    if prog.mods:
        vt = var_types(prog.nodes)
        for _ in range(tries):
            attempt(tr, rng, prog, vt, max(vt) + 1)
    return tr


def per_repetition(rng, k):
    """layers over features that differ from repetition to repetition, in the first or only in later ones"""
    out = []
    for _ in range(k):
        R = rng.choice((2, 3, 3, 4))
        F = rng.choice((4, 6))
        C = rng.randint(1, 2)
        G = rng.choice((2, 2, 4) if F == 4 else (2, 4))
        depth = {2: 1, 4: 2}[G]

        def part():
            p = list(range(1, F + 1))
            rng.shuffle(p)
            cut = [p[g::G] for g in range(G)]
            return [sorted(x) for x in cut]
        odd = rng.choice([set(range(R)), {R - 1}, {rng.randrange(R)}, set()])
        base = part()
        groups = [part() if r in odd else base for r in range(R)]
        out.append([fill(leaf_node(range(F), C, R), rng),
                    dict(fill(node("fact", [1], depth=depth, groups=[[]] * R), rng), _variant=1, _groups=groups)])
    return out


def splits(job, rng, idx):
    """split modules, products, sums and mixtures over such features"""
    tr = Trace(f"split{idx}")
    prog = Prog(tr, [])
    for n in job:
        if not prog.mk(n, obs=True):
            return tr
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    for i in range(1, len(prog.mods) + 1):
        m = prog.mods[i - 1]
        F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
        if uses(prog.nodes, i, "cltree") or tainted(prog.nodes, prog.nodes[i - 1]) or any(tainted(prog.nodes, prog.nodes[j - 1]) for j in below(prog.nodes, i)):
            continue
        for kind_ in ("cons", "int", "idx"):
            for k in (2, 3, 4):
                if F % k:
                    continue
                p = list(range(F))
                rng.shuffle(p)
                sp = {"kind": kind_, "k": k, "idx": [p[a * (F // k):(a + 1) * (F // k)] for a in range(k)] if kind_ == "idx" else []}
                ok, s = tr.attempt("split:" + kind_, lambda: split_of(sp, m, 1))
                if not ok:
                    continue
                ok, fs = tr.attempt("split:" + kind_, lambda: s.feature_to_scope)
                if ok:
                    tr.add("splitfs", "split:" + kind_, m=i, split=sp,
                           fs=[[[list(map(int, c.query)) for c in f[:, r]] for f in fs] for r in range(fs.shape[2])])
                    tr.add("eq", "split:" + kind_, clause="split_shape", a=[F, C, R, sorted(map(int, m.scope.query))],
                           b=[s.out_shape.features, s.out_shape.channels, s.out_shape.repetitions, sorted(map(int, s.scope.query))])
    if len(prog.nodes) > 2:
        return tr
    i = len(prog.mods)
    F, C, R = prog.mods[-1].out_shape.features, prog.mods[-1].out_shape.channels, prog.mods[-1].out_shape.repetitions
    tops = [{"op": "rmix", "ins": [i], "w": fillw([F, C, R], rng)}, {"op": "sum", "ins": [i], "w": fillw([R, F, 2, C], rng)},
            {"op": "prod", "ins": [i]}]
    for kind_ in ("cons", "int", "idx"):
        for k in (2, 4):
            if F % k == 0:
                p = list(range(F))
                rng.shuffle(p)
                sp = {"kind": kind_, "k": k, "idx": [p[a * (F // k):(a + 1) * (F // k)] for a in range(k)] if kind_ == "idx" else []}
                tops += [{"op": op, "ins": [i], "split": sp} for op in ("eprod", "oprod")]
                if k == 2:
                    tops += [{"op": "einsum", "ins": [i], "split": sp, "w": fillw([R, F // 2, 2, C, C], rng, 2)},
                             {"op": "linsum", "ins": [i], "split": sp, "w": fillw([R, F // 2, 2, C], rng)}]
    for n in tops:
        n.setdefault("split", dict(NOSPLIT))
        n["_variant"] = rng.randint(0, 1)
        record(tr, rng, prog, n, nv, vt)
    return tr


def cond(nodes, rng, idx):
    return conditional.Cond(nodes, rng, f"cond{idx}", obs=True).traces()


def main(check):
    ps = corpus(check, 2 if check.quick() else 12, seed=11)
    cs = [t for q in pmap(cond, conditional.jobs(check, 0.4 if check.quick() else 3, 111), check.seed + 1) for t in q]
    ss = pmap(splits, per_repetition(check.rng, 40 if check.quick() else 300) + ps[:60 if check.quick() else 400], check.seed + 2)
    check.run("LibTrace", cs + ss + pmap(replay, ps, check.seed)
              + directed(check.rng, ["sum", "cat2", "esum", "cat1", "prod", "eprod", "oprod", "einsum", "linsum", "fact"]))
