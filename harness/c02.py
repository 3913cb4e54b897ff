"""C02: missing values are summed out exactly."""
from circuits import *
import conditional


def mask_row(rng, row, scope, p):
    return [float("nan") if rng.random() < p else x for x in row]


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    for i in range(1, len(prog.mods) + 1):
        n = prog.nodes[i - 1]
        tag = "ll:" + kind(n)
        rows = [mask_row(rng, rand_row(rng, vt, nv), None, p) for p in (0.3, 0.5, 0.5, 0.8)]
        rows.append([float("nan")] * nv)
        rows.append(rand_row(rng, vt, nv))
        rng.shuffle(rows)
        ll_event(tr, prog, i, rows, tag)
        if i % 4 == 0:  # a partial row alone in its batch
            ll_event(tr, prog, i, [r for r in rows if any(x != x for x in r)][:1], tag + ":single")
    return tr


def cond(nodes, rng, idx):
    p = conditional.Cond(nodes, rng, f"cond{idx}")
    conditional.likelihoods(p, rng, (0.0, 0.3, 0.6, 1.0))
    return p.traces()


def main(check):
    ps = corpus(check, 1 if check.quick() else 6, seed=2)
    ps += directed_programs(check.rng, not check.quick()) + family_programs(check.rng)
    ts = pmap(replay, ps, check.seed)
    cs = conditional.jobs(check, 0.6 if check.quick() else 5, 102)
    check.run("LibTrace", ts + [t for q in pmap(cond, cs, check.seed + 1) for t in q])
    # the specification's own meaning: normalisation, summing out, boxes, EM form and monotonicity
    # for every operator over small leaf layers (and every pair of operators in the thorough tier)
    check.design("CircuitMC", "SPECIFICATION Spec\nCONSTANTS MaxInner = %d Starts = {%s}\nINVARIANTS Shapes Normalised SummedOut Boxes "
                 "NormalForm Monotone Decodable\nCHECK_DEADLOCK FALSE\n" % ((1, "1,2") if check.quick() else (2, "1,2,3,4")))
