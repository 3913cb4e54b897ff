"""C07: most-probable-explanation decoding follows maximal branches and leaf modes."""
from sampling import *
import conditional


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    for i in range(1, len(prog.mods) + 1):
        if tree_ok(prog.nodes, i):
            for how in ("weights", "posterior") * reps:
                mpe_batch(tr, rng, prog, i, vt, nv, how)
            how = rng.choice(("mpe", "evidence"))
            mpe_batch(tr, rng, prog, i, vt, nv, how, tag="mpeapi:", groups=4)
    return tr


def cond(nodes, rng, idx):
    p = conditional.Cond(nodes, rng, f"cond{idx}")
    for i in range(1, len(p.mods) + 1):
        for post in (False, True) * reps:
            conditional.mpes(p, rng, i, post)
    return p.traces()


def main(check):
    global reps
    reps = 1 if check.quick() else 3
    ps = corpus(check, 1.3 if check.quick() else 4, seed=7) + directed_programs(check.rng, not check.quick()) + family_programs(check.rng) \
        + excluding_programs(check.rng, 6 if check.quick() else 30)
    ts = pmap(replay, ps, check.seed)
    cs = conditional.jobs(check, 0.6 if check.quick() else 3, 107)
    check.run("LibTrace", ts + [t for q in pmap(cond, cs, check.seed + 1) for t in q])
