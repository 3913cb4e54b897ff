"""C26: image views and joint views present the circuit they wrap."""
import types
from sampling import *
from importer import import_module
import c08
from spflow.exceptions import UnsupportedOperationError, InvalidWeightsError, ShapeError
from spflow.modules.wrapper.image_wrapper import ImageWrapper, MarginalizationContext
from spflow.zoo.cms.joint import JointLogLikelihood


class View:
    """rows (batch, nv) <-> images of a view; everything else is read off the wrapped module"""

    def __init__(self, iw, size, vs, nv):
        self.iw, self.size, self.vars, self.nv = iw, size, vs, nv

    def image(self, x):
        C, H, W = self.size
        out = torch.empty(x.shape[0], C, H, W, dtype=x.dtype)
        for c in range(C):
            for h in range(H):
                for w in range(W):
                    out[:, c, h, w] = x[:, self.vars[c * H * W + h * W + w]]
        return out

    def rows(self, img, x=None):
        C, H, W = self.size
        if tuple(img.shape[1:]) != (C, H, W):
            raise ValueError(f"image of shape {tuple(img.shape)} from a view of size {self.size}")
        out = torch.full((img.shape[0], self.nv), NAN, dtype=img.dtype) if x is None else x.clone()
        for c in range(C):
            for h in range(H):
                for w in range(W):
                    out[:, self.vars[c * H * W + h * W + w]] = img[:, c, h, w]
        return out

    def log_likelihood(self, x, cache=None):
        return self.iw.log_likelihood(self.image(x)) if cache is None else self.iw.log_likelihood(self.image(x), cache=cache)

    def _sample(self, data, sampling_ctx, cache):
        return self.rows(self.iw._sample(data=self.image(data), sampling_ctx=sampling_ctx, cache=cache), data)

    def back(self, res, x=None):
        return (self.rows(res[0], x), res[1]) if isinstance(res, tuple) else self.rows(res, x)

    def sample(self, num_samples=None, data=None, **kw):
        if data is None:
            return self.back(self.iw.sample(num_samples=num_samples, **kw))
        return self.back(self.iw.sample(data=self.image(data), **kw), data)

    def mpe(self, data, **kw):
        return self.back(self.iw.mpe(data=self.image(data), **kw), data)

    def sample_with_evidence(self, data, **kw):
        return self.back(self.iw.sample_with_evidence(self.image(data), **kw), data)

    @property
    def scope(self):  # rows are as wide as the circuit's variables
        return types.SimpleNamespace(query=list(range(self.nv)))

    def __getattr__(self, name):
        if name == "_has_partial_evidence":
            raise AttributeError(name)
        return getattr(self.iw, name) if name in ("out_shape", "in_shape", "feature_to_scope") else getattr(self.iw.module, name)


def circuit(kind_, n, rng):
    """a circuit over the variables 0..n-1"""
    C, R = rng.randint(1, 3), rng.randint(1, 2)
    fams = ["bernoulli", "categorical", "normal", "exponential", "poisson", "geometric", "laplace"]
    d = lambda: rng.choice(fams)
    if kind_ == "vec" or kind_ == "shuffled":
        vs = list(range(n))
        if kind_ == "shuffled":
            rng.shuffle(vs)
        ps = [leaf_node(vs, C, R, d()), node("sum", [1], w=q(R, n, 2, C)), node("prod", [2]), node("sum", [3], w=q(R, 1, 2, 2))]
    elif kind_ in ("each", "joint"):
        ps = [leaf_node([v], C, R, d()) for v in rng.sample(range(n), n)]
        ps += [node("cat1" if kind_ == "joint" else "prod", list(range(1, n + 1)))]
        F = n if kind_ == "joint" else 1
        ps += [node("sum", [n + 1], w=q(R, F, 2, C))] + ([node("prod", [n + 2])] if kind_ == "joint" else [])
    elif kind_ == "groups":
        order = rng.sample(range(n), n)
        cut = rng.randint(1, max(1, n - 1))
        parts = [sorted(order[:cut]), sorted(order[cut:])]
        parts = [p for p in parts if p]
        ps = [leaf_node(p, C, R, d()) for p in parts]
        k = len(ps)
        ps += [node("prod", list(range(1, k + 1))), node("sum", [k + 1], w=q(R, 1, 2, C))]
    elif kind_ == "fact":
        ps = [leaf_node(range(n), C, R, d()), node("fact", [1], depth=1, groups=[[]] * R), node("sum", [2], w=q(R, 2, 2, C)), node("prod", [3])]
    elif kind_ == "halves" and n % 2 == 0:
        order = rng.sample(range(n), n)
        ps = [leaf_node(order[:n // 2], C, R, d()), leaf_node(order[n // 2:], C, R, d()), node("eprod", [1, 2]),
              node("sum", [3], w=q(R, n // 2, 2, C)), node("prod", [4])]
    else:
        fam = [d() for _ in range(n)]
        ps = [leaf_node([v], C, R, fam[v]) for v in range(n)] + [leaf_node([v], C, R, fam[v]) for v in range(n)]
        ps += [node("prod", list(range(1, n + 1))), node("prod", list(range(n + 1, 2 * n + 1))), node("cat2", [2 * n + 1, 2 * n + 2]),
               node("sum", [2 * n + 3], w=q(R, 1, 2, 2 * C))]
    for p in ps:
        p.setdefault("_variant", rng.randint(0, 1))
    return [dict(fill(p, rng), _variant=p["_variant"]) for p in ps]


def tolist(x):
    return nums(x)


def replay(job, rng, idx):
    size = job["size"]
    n = size[0] * size[1] * size[2]
    tr = Trace(f"img{idx}:{job['kind']}")
    torch.manual_seed(rng.randrange(10 ** 6))
    prog = Prog(tr, circuit(job["kind"], n, rng))
    if not prog.ok:
        return tr
    vt = var_types(prog.nodes)
    root = len(prog.mods)
    ok, iw = tr.attempt("view", lambda: ImageWrapper(prog.mods[-1], num_channel=size[0], height=size[1], width=size[2]))
    if not ok:
        return tr
    base = list(range(n))
    view = View(iw, list(size), base, n)
    cur = types.SimpleNamespace(tr=tr, nodes=prog.nodes, mods=prog.mods[:-1] + [view])
    at = root
    for bad in ([size[0] + 1, size[1], size[2]], [size[0], size[1] + 1, size[2]], [1, 1, n + 1]):
        tr.must_raise("view:size", lambda: ImageWrapper(prog.mods[-1], num_channel=bad[0], height=bad[1], width=bad[2]))
    wrong = torch.zeros(2, size[0], size[2] + 1, size[1] + 1)
    tr.must_raise("view:shape", lambda: iw.log_likelihood(wrong))
    for op in job["ops"]:
        v = cur.mods[at - 1]
        suffix = ":left" if v.vars != base else ""
        if op["op"] == "ll":
            imgs = v.image(torch.tensor([[NAN if rng.random() < 0.2 else val_of(rng, vt[k]) for k in range(n)] for _ in range(3)]))
            ok, out = tr.attempt("imgll" + suffix, lambda: v.iw.log_likelihood(imgs))
            if ok:
                tr.add("imgll", "imgll" + suffix, m=at, size=v.size, vars=v.vars, nv=n, imgs=nums(imgs), out=out_tokens(out))
        elif op["op"] in ("smp", "evid"):
            sample_batch(tr, rng, cur, at, vt, n, 600, evidence=op["op"] == "evid", api=True, groups=1 if op["op"] == "smp" else 2, tag=f"view{suffix}:{op['op']}:")
        elif op["op"] in ("mpe", "mpeev"):
            mpe_batch(tr, rng, cur, at, vt, n, "mpe" if op["op"] == "mpe" else "evidence", tag=f"view{suffix}:mpe:", groups=4)
        elif op["op"] == "em" and not any(uses(cur.nodes, at, o) for o in ("pconv", "sconv")):
            rows = c08.rows_for(rng, cur, at, n, rng.choice((3, 6)))
            if c08.well_conditioned(cur, at):
                c08.em_event(tr, rng, cur, at, rows, rng.random() < 0.3, "view:em" + suffix,
                             api=lambda m, x, bias: c08.one_step(m.iw, m.image(x), bias))
        elif op["op"] == "marg":
            at, cur = marginalize(tr, rng, cur, at, vt, n, op, "view:marg" + suffix)
            if cur is None:
                return tr
    return tr


def marginalize(tr, rng, cur, at, vt, n, op, tag):
    v = cur.mods[at - 1]
    probe = v.image(torch.tensor([[val_of(rng, vt[k]) for k in range(n)]]))
    refused, why = False, ""
    before = v.iw.log_likelihood(probe)

    def call():
        nonlocal refused, why
        try:
            arg = lambda k: (rng.sample(op[k], len(op[k])) if op[k] or rng.random() < 0.5 else None)
            return v.iw.marginalize(MarginalizationContext(c=arg("c"), h=arg("h"), w=arg("w")), prune=rng.random() < 0.6)
        except (NotImplementedError, UnsupportedOperationError, InvalidWeightsError, ShapeError) as x:
            refused, why = True, f"{type(x).__name__}: {x}"[:200]
    ok, res = tr.attempt(tag, call)
    if not ok:
        return at, None
    tr.add("close", tag, clause="original_distribution_changed", a=nums(before.flatten()), b=nums(v.iw.log_likelihood(probe).flatten()))
    ev = dict(m=at, size=v.size, vars=v.vars, nv=n, c=op["c"], h=op["h"], w=op["w"], refused=refused, err=why, none=res is None,
              newsize=[], scope=[], imgs=[], out=[], shape=[])
    nxt = None
    if res is not None:
        C, H, W = v.size
        gone = {v.vars[c * H * W + h * W + w] for c in range(C) for h in range(H) for w in range(W)
                if c in op["c"] or h in op["h"] or w in op["w"]}
        left = [x for x in v.vars if x not in gone]
        new = [C - len(op["c"]), H - len(op["h"]), W - len(op["w"])]
        nxt = View(res, new, left, n)
        imgs = nxt.image(torch.tensor([[NAN if rng.random() < p else val_of(rng, vt[k]) for k in range(n)] for p in (0, 0, 0.4)]))
        ok, out = tr.attempt(tag + ":eval", lambda: res.log_likelihood(imgs))
        if not ok:
            return at, None
        ev.update(newsize=[res.num_channel, res.height, res.width], scope=sorted(int(x) for x in res.scope.query), imgs=nums(imgs), out=out_tokens(out),
                  shape=[res.out_shape.features, res.out_shape.channels, res.out_shape.repetitions])
    tr.add("imgmarg", tag, **ev)
    if nxt is None:
        return at, cur
    if any(type(x).__name__ == "Factorize" for x in nxt.iw.module.modules()):
        return at, None  # a reduced factorization is not one the constructor makes
    # later calls are judged against the circuit the removal left behind
    holder = Prog(tr, [])
    holder.mods, holder.nodes = list(cur.mods), list(cur.nodes)
    holder.mods[at - 1] = v.iw.module
    ok, got = tr.attempt(tag + ":import", lambda: import_module(tr, nxt.iw.module, holder))
    if not ok:
        return at, None
    prog, j = got
    mods = list(prog.mods)
    mods[at - 1] = v
    if j == at:  # nothing was removed
        mods[at - 1] = nxt
    else:
        mods[j - 1] = nxt
    return j, types.SimpleNamespace(tr=tr, nodes=prog.nodes, mods=mods)


def joint(job, rng, idx):
    """a joint view: the product of the features of the module it wraps"""
    n = job["size"][0] * job["size"][1] * job["size"][2]
    tr = Trace(f"joint{idx}")
    torch.manual_seed(rng.randrange(10 ** 6))
    C, R = rng.randint(1, 3), rng.randint(1, 2)
    d = rng.choice(["bernoulli", "categorical", "normal"])
    inner = [leaf_node(range(n), C, R, d)] + ([node("sum", [1], w=q(R, n, rng.randint(1, 2), C))] if rng.random() < 0.6 else [])
    prog = Prog(tr, [dict(fill(p, rng), _variant=rng.randint(0, 1)) for p in inner])
    if not prog.ok:
        return tr
    ok, m = tr.attempt("joint", lambda: JointLogLikelihood(prog.mods[-1]))
    if not ok:
        return tr
    prog.adopt(m, node("prod", [len(prog.mods)]), "joint")
    tr.add("mk", "joint:shape", node=to_spec(prog.nodes[-1]), obs=observe(m, True))
    prog.mods.append(m)
    prog.nodes.append(prog.nodes[-1])
    at = len(prog.mods) - 1
    vt = var_types(prog.nodes)
    for op in job["ops"]:
        if op["op"] == "ll":
            ll_event(tr, prog, at, [rand_row(rng, vt, n) for _ in range(3)], "joint:ll")
        elif op["op"] in ("smp", "evid"):
            sample_batch(tr, rng, prog, at, vt, n, 600, evidence=op["op"] == "evid", api=True, groups=1 if op["op"] == "smp" else 2, tag="joint:")
            sample_batch(tr, rng, prog, at, vt, n, 600, evidence=op["op"] == "evid", groups=2, tag="joint:routed:")
        elif op["op"] in ("mpe", "mpeev"):
            mpe_batch(tr, rng, prog, at, vt, n, rng.choice(("weights", "posterior")), tag="joint:routedmpe:", groups=4)
            mpe_batch(tr, rng, prog, at, vt, n, "mpe" if op["op"] == "mpe" else "evidence", tag="joint:mpe:", groups=4)
        elif op["op"] == "marg":
            import c03
            c03.marg_event(tr, rng, prog, at, vt, n)
    return tr


def main(check):
    qk = check.quick()
    check.design("ImageMC", f"""SPECIFICATION Spec
CONSTANTS MaxC = {2 if qk else 3} MaxH = 3 MaxW = {3 if qk else 4}
INVARIANTS Grid Ascending Bijective Faithful Composes RoundTrip
CHECK_DEADLOCK FALSE
""")
    L_ = 8
    hs = histories(check, "ImageGen", f"MaxLen = {L_} MaxPixels = {9 if qk else 12}", 160 if qk else 1500, L_, check.seed)
    cut = len(hs) * 3 // 4
    check.run("LibTrace", pmap(replay, hs[:cut], check.seed) + pmap(joint, hs[cut:], check.seed + 1))
