"""C03: structural marginalisation agrees with summing out."""
import decimal

from circuits import *
import conditional
import zoo

from spflow.exceptions import UnsupportedOperationError, InvalidWeightsError, ShapeError

NAN = float("nan")
BROKEN = ("einsum", "linsum", "sconv", "pconv")


def weights_of(m):
    return {k: nums(v) for k, v in m.state_dict().items()}


def marg_event(tr, rng, prog, i, vt, nv, rvs=None):
    m = prog.mods[i - 1]
    scope = [int(v) for v in m.scope.query]
    z = rng.randint(0, 9)
    if rvs is not None:
        pass
    elif z == 0:
        rvs = list(scope)
    elif z == 1:
        rvs = [v for v in range(nv) if v not in scope] or []
    elif z == 2 and len(scope) > 1:
        rvs = rng.sample(scope, len(scope) - 1)
    elif z <= 5:
        rvs = [rng.choice(scope)]
    else:
        rvs = [v for v in range(nv) if rng.random() < 0.5]
    prune = rng.random() < 0.6
    if any(v in rvs for v in scope) and set(scope) - set(rvs) and any(
            prog.nodes[j - 1]["op"] in BROKEN or prog.nodes[j - 1].get("dist") == "cltree"
            for j in below(prog.nodes, i)):
        return  # reached through an operator whose own marginalisation is a known finding
    n = prog.nodes[i - 1]
    tag = "marg:" + (n["op"] if n["op"] in BROKEN else kind(n))
    probe = torch.tensor([rand_row(rng, vt, nv)])
    before, ll0 = weights_of(m), m.log_likelihood(probe)
    refused = False

    def call():
        nonlocal refused
        try:
            return m.marginalize(list(rvs), prune=prune)
        except (NotImplementedError, UnsupportedOperationError, InvalidWeightsError, ShapeError):
            refused = True
    ok, res = tr.attempt(tag, call)
    if not ok:
        return
    tr.add("eq", tag, clause="original_weights_changed", a=json.dumps(before, sort_keys=True),
           b=json.dumps(weights_of(m), sort_keys=True)) if before != weights_of(m) else None
    tr.add("close", tag, clause="original_distribution_changed", a=nums(ll0.flatten()), b=nums(m.log_likelihood(probe).flatten()))
    ev = dict(m=i, rvs=rvs, prune=prune, refused=refused, none=res is None, scope=[], rows=[], out=[], shape=[])
    if res is not None:
        rows = []
        for p in (0, 0, 0.4):
            r = rand_row(rng, vt, nv)
            # the marginalised columns must not matter any more
            rows.append([(NAN if rng.random() < 0.3 else x) if v in rvs else (NAN if rng.random() < p else x) for v, x in enumerate(r)])
        ok, out = tr.attempt(tag + ":eval", lambda: res.log_likelihood(torch.tensor(rows)))
        if not ok:
            return
        ev.update(scope=sorted(int(v) for v in res.scope.query), rows=nums(rows), out=out_tokens(out),
                  shape=[res.out_shape.features, res.out_shape.channels, 1 if uses_rmix(res) else res.out_shape.repetitions])
    tr.add("marg", tag, **ev)


def uses_rmix(m):
    return isinstance(m, RepetitionMixingLayer)


def underflow(tr, rng, prog):
    """some sum gets a weight that is positive but too small for a float"""
    js = [j for j, n in enumerate(prog.nodes[:len(prog.mods)], 1) if n["op"] in ("sum", "esum", "rmix")
          and prog.mods[j - 1].log_weights.shape[prog.mods[j - 1].sum_dim] > 1]
    if not js:
        return
    j = rng.choice(js)
    m = prog.mods[j - 1]
    lw = m.log_weights.detach().clone()
    lw[tuple(rng.randrange(k) for k in lw.shape)] -= rng.choice((800.0, 2000.0))
    m.log_weights = torch.log_softmax(lw, dim=m.sum_dim)
    lw = m.log_weights.detach().permute(*WORDER[prog.nodes[j - 1]["op"]])
    text = lambda x: [text(y) for y in x] if isinstance(x, list) else str(decimal.Decimal(x).exp())
    prog.nodes[j - 1] = read_node(m, prog.nodes[j - 1])
    tr.add("upd", "underflow", j=j, node=dict(to_spec(prog.nodes[j - 1]), w=text(lw.tolist())))


def replay(nodes, rng, idx):
    tr = Trace(f"prog{idx}")
    prog = Prog(tr, nodes)
    if not prog.mods:
        return tr
    vt = var_types(prog.nodes)
    if idx % 5 == 0:
        underflow(tr, rng, prog)
    nv = max(vt) + 1
    for i in range(1, len(prog.mods) + 1):
        marg_event(tr, rng, prog, i, vt, nv)
        scope = sorted(map(int, prog.mods[i - 1].scope.query))
        if uses(prog.nodes, i, "fact") and len(scope) <= 4:
            # which groups vanish, and in which repetitions, depends on the variables: ask for every subset
            for b in range(1, 2 ** len(scope) - 1):
                marg_event(tr, rng, prog, i, vt, nv, [v for k, v in enumerate(scope) if b >> k & 1])
    return tr


def factorized(rng):
    """factorizations whose groups differ between repetitions, below every operator"""
    out = []
    for F, dep, R in ((2, 1, 2), (3, 1, 2), (3, 1, 3), (4, 2, 2), (4, 1, 3)):
        G = 2 ** dep
        groups = []
        for _ in range(R):
            o = rng.sample(range(1, F + 1), F)
            groups.append([sorted(o[g::G]) for g in range(G)])
        fact = lambda i, given: node("fact", [i], depth=dep, groups=[[]] * R, **({"_groups": groups} if given else {}))
        for own in (1, R):
            for top in ("esum", "sum", "eprod", "prod", "cat2", "rmix", "rmix2", "fact"):
                two = top in ("esum", "cat2")
                if top == "rmix2":
                    out.append([fill(dict(n, _variant=0), rng) for n in (
                        leaf_node(range(F), 2, R), dict(fact(1, True), _groups=[groups[0]] * R), node("rmix", [2], w=q(G, 2, R)))])
                    continue
                b = [leaf_node(range(F), 2, own), fact(1, two or rng.random() < 0.5)]
                if two:
                    b += [leaf_node(range(F), 2 if top == "esum" else 3, own), fact(3, True)]
                    ins = [2, 4]
                    # the same variables of both inputs must have the same type
                    b[2]["dist"] = b[0]["dist"]
                    b[2]["par"] = q(own, F, len(b[2]["par"][0][0]), 1)
                else:
                    ins = [2]
                w = {"esum": lambda: q(R, G, 2, 2, 2), "sum": lambda: q(R, G, 3, 2)}
                kw = {"w": w[top]()} if top in w else {}
                if top == "eprod":
                    b.append(node("eprod", ins, {"kind": rng.choice(["cons", "int"]), "k": 2, "idx": []}))
                elif top == "rmix":
                    b += [node("prod", ins), node("rmix", [3], w=q(1, 2, R))]
                elif top == "fact":
                    b.append(node("fact", ins, depth=1, groups=[[]] * R, _variant=1, **({"_groups": [[[g + 1 for g in range(G) if (g + r) % 2 == k]
                                                                                               for k in (0, 1)] for r in range(R)]})))
                else:
                    b.append(node(top, ins, **kw))
                out.append([fill(dict(n, _variant=rng.randint(0, 1)), rng) for n in b])
    return out


def cond(nodes, rng, idx):
    p = conditional.Cond(nodes, rng, f"cond{idx}")
    conditional.refusals(p, rng, "marginalize")
    return p.traces()


def whole(j, rng, idx):
    """marginalising a ready-made model"""
    z = zoo.build(j, rng, f"zoo{idx}")
    if z is None:
        return Trace("none")
    tr, prog, i = z
    vt = var_types(prog.nodes)
    for _ in range(3):
        marg_event(tr, rng, prog, i, vt, max(vt) + 1)
    return tr


def main(check):
    ps = corpus(check, 1.5 if check.quick() else 10, seed=3) + directed_programs(check.rng, not check.quick()) + [p for _ in range(1 if check.quick() else 6) for p in factorized(check.rng)]
    cs = [t for q in pmap(cond, conditional.jobs(check, 0.2, 103), check.seed + 1) for t in q]
    zs = pmap(whole, zoo.jobs(check, 40 if check.quick() else 300, '{"rat", "einet", "conv", "naive", "naive", "naive"}', 3), check.seed + 2)
    check.run("LibTrace", cs + [t for t in zs if t.events] + pmap(replay, ps, check.seed))
