"""C01: likelihood semantics and normalisation."""
from circuits import *
import conditional


def replay(nodes, rng, idx, n_rows=5):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    for i in range(1, len(prog.mods) + 1):
        n = prog.nodes[i - 1]
        tag = "ll:" + kind(n)
        rows = [rand_row(rng, vt, nv) for _ in range(n_rows)]
        ll_event(tr, prog, i, rows, tag)
        if i % 3 == 0:
            ll_event(tr, prog, i, rows[:1], tag + ":single")
    # total mass
    if all(d in DOMSIZE for d in vt.values()):
        for i in rng.sample(range(1, len(prog.mods) + 1), min(3, len(prog.mods))):
            m = prog.mods[i - 1]
            doms = {int(v): DOMSIZE[vt[int(v)]] for v in m.scope.query}
            size = np.prod(list(doms.values()))
            if size > 81 or (uses(prog.nodes, i, "cltree") and m.out_shape.features > 1):
                continue
            rows = list(joint_rows(doms, nv))
            tag = "norm:" + kind(prog.nodes[i - 1])
            ok, out = tr.attempt(tag, lambda: m.log_likelihood(torch.tensor(rows)))
            if ok:
                tr.add("norm", tag, m=i, out=out_tokens(out), dom=[doms.get(v, 1) for v in range(nv)])
    return tr


def cond(nodes, rng, idx):
    p = conditional.Cond(nodes, rng, f"cond{idx}")
    conditional.likelihoods(p, rng, (0.0,))
    return p.traces()


def main(check):
    ps = corpus(check, 1 if check.quick() else 6)
    ps += directed_programs(check.rng, not check.quick()) + family_programs(check.rng)
    ts = pmap(replay, ps, check.seed)
    cs = conditional.jobs(check, 0.6 if check.quick() else 5, 101)
    check.run("LibTrace", ts + [t for q in pmap(cond, cs, check.seed + 1) for t in q])
