"""C25: differentiable sampling makes the same hard choices with usable gradients."""
from sampling import *


def differentiable(nodes, i):
    """tree leaves refuse differentiable routing explicitly"""
    return tree_ok(nodes, i) and not any(nodes[j - 1].get("dist") == "cltree" for j in below(nodes, i) | {i})


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    todo = [i for i in range(1, len(prog.mods) + 1) if differentiable(prog.nodes, i)]
    leaves = [i for i in todo if prog.nodes[i - 1]["op"] == "leaf"]
    inner = [i for i in todo if i not in leaves]
    for i in (leaves if deep else rng.sample(leaves, min(1, len(leaves)))) + inner:
        tau = rng.choice((0.1, 1.0, 1.0, 3.0))
        sample_batch(tr, rng, prog, i, vt, nv, n, evidence=rng.random() < 0.4, diff=tau, tag="diff:")
        mpe_batch(tr, rng, prog, i, vt, nv, rng.choice(("weights", "posterior")), diff=tau, tag="diffmpe:")
        for ev in (False, True):
            grad_event(tr, rng, prog, i, vt, nv, 400, tau, ev)
    return tr


def main(check):
    global deep, n
    deep = not check.quick()
    n = 8000 if deep else 2000
    ps = corpus(check, 3 if deep else 0.8, seed=25) + directed_programs(check.rng, deep) + family_programs(check.rng) \
        + excluding_programs(check.rng, 6 if check.quick() else 30)
    check.run("LibTrace", pmap(replay, ps, check.seed))
