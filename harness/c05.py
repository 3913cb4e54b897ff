"""C05: unconditional samples follow the circuit's distribution."""
from sampling import *
import conditional


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    todo = [i for i in range(1, len(prog.mods) + 1) if tree_ok(prog.nodes, i)]
    leaves = [i for i in todo if prog.nodes[i - 1]["op"] == "leaf"]
    inner = [i for i in todo if i not in leaves]
    if not deep:
        leaves = rng.sample(leaves, min(1, len(leaves)))
    for i in leaves + inner:
        sample_batch(tr, rng, prog, i, vt, nv, n)
        if rng.random() < 0.3:
            sample_batch(tr, rng, prog, i, vt, nv, n, api=True, groups=1, tag="smpapi:")
    return tr


def cond(nodes, rng, idx):
    p = conditional.Cond(nodes, rng, f"cond{idx}")
    todo = range(1, len(p.mods) + 1)
    for i in todo if deep else rng.sample(todo, min(2, len(todo))) + list(todo)[-1:]:
        conditional.samples(p, rng, i, n, False, 3)
    return p.traces()


def main(check):
    global deep, n
    deep = not check.quick()
    n = 12000 if deep else 3000
    ps = corpus(check, 3 if deep else 0.8, seed=5) + directed_programs(check.rng, deep) + family_programs(check.rng)
    ts = pmap(replay, ps, check.seed)
    cs = conditional.jobs(check, 0.3 if check.quick() else 3, 105)
    check.run("LibTrace", ts + [t for q in pmap(cond, cs, check.seed + 1) for t in q])
