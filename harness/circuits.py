"""Programs (node lists produced by spec/CircuitGen.tla or by hand) -> real SPFlow modules + mk events."""
from common import *
import itertools
import numpy as np
import torch

torch.set_default_dtype(torch.float64)
torch.set_num_threads(1)
torch.use_deterministic_algorithms(False)

from spflow.meta.data.scope import Scope
from spflow.modules.module import Module
from spflow.modules import leaves as L
from spflow.modules.leaves import *  # noqa
from spflow.modules.leaves.cltree import CLTree
from spflow.modules.sums.sum import Sum
from spflow.modules.sums.elementwise_sum import ElementwiseSum
from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
from spflow.modules.products.product import Product
from spflow.modules.products.elementwise_product import ElementwiseProduct
from spflow.modules.products.outer_product import OuterProduct
from spflow.modules.ops.cat import Cat
from spflow.modules.ops.split import SplitMode
from spflow.modules.ops.split_consecutive import SplitConsecutive
from spflow.modules.ops.split_interleaved import SplitInterleaved
from spflow.modules.ops.split_by_index import SplitByIndex
from spflow.modules.einsum.einsum_layer import EinsumLayer
from spflow.modules.einsum.linsum_layer import LinsumLayer
from spflow.modules.rat.factorize import Factorize
from spflow.modules.conv.prod_conv import ProdConv
from spflow.modules.conv.sum_conv import SumConv

NOSPLIT = {"kind": "none", "k": 1, "idx": []}
CAT_K = 3  # categories of generated categorical leaves


from spflow.modules.leaves.binomial import BinomialDifferentiableSamplingMethod


def T(a):
    return torch.tensor(a, dtype=torch.get_default_dtype())


# -------------------------------------------------------------- random parameters
def simplex(rng, k):
    v = [rng.randint(1, 12) for _ in range(k)]
    s = float(sum(v))
    return [x / s for x in v]


def leaf_par(rng, dist, f=0):
    u = lambda a, b: round(rng.uniform(a, b), 3)
    return {
        "bernoulli": lambda: [u(0.05, 0.95)],
        "binomial": lambda: [3.0, u(0.05, 0.95)],
        "categorical": lambda: simplex(rng, CAT_K),
        "exponential": lambda: [u(0.3, 3)],
        "gamma": lambda: [u(0.5, 4), u(0.3, 3)],
        "geometric": lambda: [u(0.15, 0.9)],
        "laplace": lambda: [u(-2, 2), u(0.3, 2)],
        "log_normal": lambda: [u(-1, 1), u(0.3, 1.5)],
        "negative_binomial": lambda: [float(rng.randint(1, 4)), u(0.1, 0.8)],
        "normal": lambda: [u(-2, 2), u(0.3, 2)],
        "poisson": lambda: [u(0.3, 4)],
        "uniform": lambda: [u(-2, -0.5), u(0.5, 2)],
        "hypergeometric": lambda: [4.0, 7.0, 3.0],
        "histogram": lambda: simplex(rng, 3),
        "signed_categorical": lambda: [rng.choice([0.0, u(-1, 1), u(-1, 1), u(-1, 1), u(0.2, 1)]) for _ in range(CAT_K)],
    }[dist]()


def fill(node, rng):
    """Replace the generator's placeholders by numbers (floats), in place."""
    node = json.loads(json.dumps(node))
    op = node["op"]
    if op == "leaf" and node["dist"] == "cltree":
        node["cpt"] = [[[[simplex(rng, len(row)) for row in pos] for pos in cs] for cs in rs] for rs in node["cpt"]]
    elif op == "leaf" and isinstance(node["par"][0][0][0][0], float):
        pass  # parameters given
    elif op == "leaf":
        if node["dist"] == "histogram":
            node["aux"] = rng.choice([[-3.0, -1.0, 0.5, 3.0], [-3.0, -2.5, 2.0, 3.0], [-3.0, 0.0, 1.0, 4.0]])
        if node["dist"] == "binomial":  # which differentiable sampler the leaf is asked to use
            node["aux"] = rng.choice([[], [1.0]])
        node["par"] = [[[leaf_par(rng, node["dist"], f) for _ in fs] for f, fs in enumerate(rs)] for rs in node["par"]]
        if node["dist"] == "hypergeometric":  # one population for all features of a channel; outcomes 0..3 for every channel
            for rs in node["par"]:
                for c in range(len(rs[0])):
                    one = rng.choice([[4.0, 7.0, 3.0], [3.0, 6.0, 3.0], [3.0, 8.0, 5.0], [5.0, 8.0, 3.0], [3.0, 7.0, 4.0], [6.0, 9.0, 3.0]])
                    for fs in rs:
                        fs[c] = list(one)
    elif op in ("einsum",):
        def fl(x):
            k = len(x) * len(x[0])
            v = simplex(rng, k)
            return [v[i * len(x[0]):(i + 1) * len(x[0])] for i in range(len(x))]
        node["w"] = [[[fl(o) for o in f] for f in r] for r in node["w"]]
    elif "w" in node:
        def rec(x):
            if isinstance(x[0], str):
                return simplex(rng, len(x))
            return [rec(y) for y in x]
        node["w"] = rec(node["w"])
    return node


def to_spec(node):
    """numbers -> tokens"""
    n = {k: v for k, v in node.items() if not k.startswith("_")}
    for k in ("w", "par", "cpt", "aux"):
        if k in n:
            n[k] = nums(n[k])
    n.setdefault("split", NOSPLIT)
    if n["op"] == "leaf":
        n.setdefault("aux", [])
    return n


# -------------------------------------------------------------- constructors
def perm(a, order):
    return T(a).permute(*order).contiguous()


def mk_leaf(n):
    d, sc = n["dist"], Scope(n["scope"])
    if d == "cltree":
        return mk_cltree(n)
    p = T(n["par"])  # r f c k
    p = p.permute(1, 2, 0, 3).contiguous()  # f c r k
    kw = {}
    col = lambda i: p[..., i].contiguous()
    v = n.get("_variant", 0)
    if d == "bernoulli":
        return L.Bernoulli(sc, **({"logits": torch.logit(col(0))} if v == 1 else {"probs": col(0)}))
    if d == "binomial":
        if n["aux"]:
            kw["differentiable_sampling_method"] = BinomialDifferentiableSamplingMethod.SIMPLE
        return L.Binomial(sc, total_count=col(0), **kw, **({"logits": torch.logit(col(1))} if v == 1 else {"probs": col(1)}))
    if d == "categorical":
        return L.Categorical(sc, **({"logits": p.log() + 0.75} if v == 1 else {"probs": p}))
    if d == "exponential":
        return L.Exponential(sc, rate=col(0))
    if d == "gamma":
        return L.Gamma(sc, concentration=col(0), rate=col(1))
    if d == "geometric":
        return L.Geometric(sc, **({"logits": torch.logit(col(0))} if v == 1 else {"probs": col(0)}))
    if d == "hypergeometric":
        return L.Hypergeometric(sc, K=col(0), N=col(1), n=col(2))
    if d == "laplace":
        return L.Laplace(sc, loc=col(0), scale=col(1))
    if d == "log_normal":
        return L.LogNormal(sc, loc=col(0), scale=col(1))
    if d == "negative_binomial":
        return L.NegativeBinomial(sc, total_count=col(0), **({"logits": torch.logit(col(1))} if v == 1 else {"probs": col(1)}))
    if d == "normal":
        return L.Normal(sc, loc=col(0), scale=col(1))
    if d == "poisson":
        return L.Poisson(sc, rate=col(0))
    if d == "uniform":
        return L.Uniform(sc, low=col(0), high=col(1))
    if d == "signed_categorical":
        from spflow.zoo.sos import SignedCategorical
        return SignedCategorical(sc, out_channels=p.shape[1], num_repetitions=p.shape[2], K=p.shape[3], weights=p)
    if d == "histogram":
        return L.Histogram(sc, bin_edges=torch.tensor(n["aux"]), **({"logits": p.log() - 0.5} if v == 1 else {"probs": p}))
    raise MachineryError("leaf " + d)


def mk_cltree(n):
    # cpt[r][c][i][px][x] (root: a single row)
    K = len(n["cpt"][0][0][0][0])
    F = len(n["scope"])
    C, R = len(n["cpt"][0]), len(n["cpt"])
    t = torch.zeros(F, C, R, K, K)
    for r in range(R):
        for c in range(C):
            for i in range(F):
                rows = n["cpt"][r][c][i]
                for px in range(K):
                    for x in range(K):
                        t[i, c, r, x, px] = rows[px if len(rows) > 1 else 0][x]
    parents = torch.tensor([q - 1 for q in n["parent"]], dtype=torch.long)
    return CLTree(Scope(n["scope"]), out_channels=C, num_repetitions=R, K=K, parents=parents, log_cpt=t.log())


def split_of(sp, m, via):
    if sp["kind"] == "cons":
        return SplitConsecutive(m, num_splits=sp["k"])
    if sp["kind"] == "int":
        return SplitInterleaved(m, num_splits=sp["k"])
    return SplitByIndex(m, indices=sp["idx"])


def mode_of(sp):
    if sp["kind"] == "cons":
        return SplitMode.consecutive(num_splits=sp["k"])
    if sp["kind"] == "int":
        return SplitMode.interleaved(num_splits=sp["k"])
    return SplitMode.by_index(sp["idx"])


def mk_node(n, mods):
    """Call the real constructor for node n; mods = modules of earlier nodes."""
    ins = [mods[i - 1] for i in n["ins"]]
    op = n["op"]
    if op == "leaf":
        return mk_leaf(n)
    if op == "cat1":
        return Cat(ins, dim=1)
    if op == "cat2":
        return Cat(ins, dim=2)
    if op == "sum" and n.get("_signed"):
        from spflow.modules.sums.signed_sum import SignedSum
        w = perm(n["w"], (1, 3, 2, 0))
        return SignedSum(inputs=ins if len(ins) > 1 else ins[0], out_channels=w.shape[2], num_repetitions=w.shape[3], weights=w)
    if op == "sum":  # w[r][f][o][i] -> f i o r
        return Sum(inputs=ins if len(ins) > 1 else ins[0], weights=perm(n["w"], (1, 3, 2, 0)))
    if op == "esum":  # w[r][f][ci][co][i] -> f ci co i r
        return ElementwiseSum(inputs=ins, weights=perm(n["w"], (1, 2, 3, 4, 0)))
    if op == "rmix":  # w[f][c][r]
        return RepetitionMixingLayer(inputs=ins[0], weights=T(n["w"]))
    if op == "prod":
        return Product(inputs=ins if len(ins) > 1 else ins[0])
    sp = n.get("split", NOSPLIT)
    if op in ("eprod", "oprod"):
        cls = ElementwiseProduct if op == "eprod" else OuterProduct
        if sp["kind"] == "none":
            return cls(ins, num_splits=None) if op == "eprod" and n.get("_variant") == 1 else cls(ins)
        if n.get("_variant", 0) == 1:
            return cls(split_of(sp, ins[0], 1), num_splits=sp["k"])
        return cls(ins[0], num_splits=sp["k"], split_mode=mode_of(sp))
    if op == "einsum":  # w[r][f][o][i][j] -> f o r i j
        w = perm(n["w"], (1, 2, 0, 3, 4))
    if op == "linsum":  # w[r][f][o][c] -> f o r c
        w = perm(n["w"], (1, 2, 0, 3))
    if op in ("einsum", "linsum"):
        cls = EinsumLayer if op == "einsum" else LinsumLayer
        co = w.shape[1]
        if sp["kind"] == "none":
            return cls(ins, out_channels=co, weights=w)
        if n.get("_variant", 0) == 1:
            return cls(split_of(sp, ins[0], 1), out_channels=co, weights=w)
        return cls(ins[0], out_channels=co, weights=w, split_mode=mode_of(sp))
    if op == "fact":
        kw = {}
        if n.get("_groups"):  # groups[r][g] = input features (1-based), given instead of drawn
            g = n["_groups"]
            kw["indices"] = torch.tensor([[[float(f + 1 in g[r][o]) for r in range(len(g))] for o in range(len(g[0]))]
                                          for f in range(ins[0].out_shape.features)])
        return Factorize(ins[0] if n.get("_variant", 0) == 1 else ins, depth=n["depth"], num_repetitions=len(n["groups"]), **kw)
    if op == "pconv":
        kh, kw, ph, pw = n["kern"]
        return ProdConv(ins[0], kernel_size_h=kh, kernel_size_w=kw, padding_h=ph, padding_w=pw)
    if op == "sconv":  # w[r][k][o][i] -> o i kh kw r
        w = perm(n["w"], (2, 3, 1, 0))
        K = n["ksize"]
        m = SumConv(ins[0], out_channels=w.shape[0], kernel_size=K, num_repetitions=w.shape[-1])
        m.weights = w.reshape(w.shape[0], w.shape[1], K, K, w.shape[-1])
        return m
    raise MachineryError("op " + op)


# -------------------------------------------------------------- observation
PARS = {"bernoulli": ["probs"], "binomial": ["total_count", "probs"], "exponential": ["rate"], "gamma": ["concentration", "rate"],
        "geometric": ["probs"], "hypergeometric": ["K", "N", "n"], "laplace": ["loc", "scale"], "log_normal": ["loc", "scale"],
        "negative_binomial": ["total_count", "probs"], "normal": ["loc", "scale"], "poisson": ["rate"],
        "uniform": ["low", "high"]}


def read_leaf(m, n):
    """node n with the parameters module m holds now (numbers)"""
    n = dict(n)
    if n["dist"] == "cltree":
        t = m.log_cpt.detach().exp().tolist()  # i c r x px
        n["cpt"] = [[[[[t[i][c][r][x][px] for x in range(m.K)] for px in range(m.K if n["parent"][i] else 1)]
                      for i in range(len(n["scope"]))] for c in range(len(n["cpt"][0]))] for r in range(len(n["cpt"]))]
        return n
    if n["dist"] == "signed_categorical":
        p = m.weights.detach()
    elif n["dist"] in ("categorical", "histogram"):
        p = m.probs.detach()  # f c r k
    else:
        p = torch.stack([getattr(m, a).detach() for a in PARS[n["dist"]]], dim=-1)
    n["par"] = p.permute(2, 0, 1, 3).tolist()
    return n


WORDER = {"sum": (3, 0, 2, 1), "esum": (4, 0, 1, 2, 3), "einsum": (2, 0, 1, 3, 4), "linsum": (2, 0, 1, 3), "rmix": (0, 1, 2)}


def read_node(m, n):
    """node n with the weights / parameters module m holds now"""
    if n["op"] == "leaf":
        return read_leaf(m, n)
    if "w" not in n:
        return n
    w = m.weights.detach()
    if n["op"] == "sconv":
        co, ci, kh, kw, r = w.shape
        w = w.reshape(co, ci, kh * kw, r).permute(3, 2, 0, 1)
    else:
        w = w.permute(*WORDER[n["op"]])
    return dict(n, w=w.tolist())


def out_tokens(t):
    """(B,F,C,R) tensor -> out[b][r][f][c]"""
    if t.dim() == 3:
        t = t.unsqueeze(-1)
    return nums(t.detach().permute(0, 3, 1, 2))


def fs_of(m):
    f2s = m.feature_to_scope
    return [[list(map(int, f2s[f, r].query)) for f in range(f2s.shape[0])] for r in range(f2s.shape[1])]


def observe(m, fs=True):
    o = {"shape": [m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions],
         "scope": sorted(int(v) for v in m.scope.query)}
    if fs:
        o["fs"] = fs_of(m)
    return o


def observed_groups(m, child):
    """features of the child that each output feature of a factorize layer combines"""
    inp, out = fs_of(child), fs_of(m)
    return [[[f + 1 for f in range(len(inp[min(r, len(inp) - 1)]))
              if set(inp[min(r, len(inp) - 1)][f]) <= set(g)] for g in out[r]] for r in range(len(out))]


class Prog:
    """A replayed construction program."""

    def __init__(self, tr, nodes):
        self.tr, self.nodes, self.mods, self.ok = tr, [], [], True
        for n in nodes:
            if not self.mk(n):
                self.ok = False
                break

    def mk(self, n, obs=False, tag=None):
        tag = tag or "mk:" + kind(n)
        ok, m = self.tr.attempt(tag, lambda: mk_node(n, self.mods))
        if not ok:
            return None
        if n["op"] == "fact" and n.get("_groups"):
            n = dict(n, groups=n["_groups"])
        elif n["op"] == "fact":  # the grouping is drawn by the constructor: read it off the module
            ok, n = self.tr.attempt(tag + ":groups", lambda: dict(n, groups=observed_groups(m, self.mods[n["ins"][0] - 1])))
            if not ok:
                return None
        ev = {"node": to_spec(n)}
        if obs:
            allnodes = self.nodes + [n]
            fs = not any(tainted(allnodes, allnodes[j - 1]) for j in below(allnodes, len(allnodes)))
            ok2, o = self.tr.attempt(tag + ":observe", lambda: observe(m, fs))
            if ok2:
                ev["obs"] = o
        self.tr.add("mk", tag, **ev)
        self.mods.append(m)
        self.nodes.append(n)
        return m

    def domains(self, m=None):
        """variable -> list of values (discrete leaves only)"""
        dom = {}
        for n in self.nodes:
            if n["op"] == "leaf":
                for v in n["scope"]:
                    dom.setdefault(v, set()).add(n["dist"])
        return dom

    def adopt(self, m, n, tag):
        self.tr.add("mk", tag, node=to_spec(n))
        self.mods.append(m)
        self.nodes.append(n)


def kind(n):
    if n["op"] == "leaf":
        return n["dist"]
    if n["op"] == "pconv" and any(n["kern"][2:]):
        return "pconv:pad"
    s = n.get("split", NOSPLIT)
    return n["op"] + ("" if s["kind"] == "none" else ":" + s["kind"])


NV = 4


def val_of(rng, dist, n=None):
    if dist == "bernoulli":
        return float(rng.randint(0, 1))
    if dist == "categorical":
        return float(rng.randint(0, CAT_K - 1))
    if dist in ("binomial",):
        return float(rng.randint(0, 3))
    if dist in ("geometric", "poisson", "negative_binomial"):
        return float(rng.randint(0, 6))
    if dist == "hypergeometric":
        return float(rng.randint(0, 3))
    if dist in ("exponential", "gamma", "log_normal"):
        return round(rng.uniform(0.05, 4), 3)
    if dist == "uniform":  # now and then outside some or all intervals
        return round(rng.uniform(-0.5, 0.5), 3) if rng.random() < 0.8 else rng.choice([1.2, -1.1, 1.7, 9.5])
    if dist == "histogram":  # now and then outside every bin: an impossible value
        return round(rng.uniform(-2.99, 2.99), 3) if rng.random() < 0.9 else 9.5
    return round(rng.uniform(-3, 3), 3)


DOMSIZE = {"bernoulli": 2, "categorical": CAT_K, "binomial": 4, "hypergeometric": 4}


ALLOPS = "sum esum rmix prod eprod oprod einsum linsum fact pconv sconv cat1 cat2 cltree"


def var_types(nodes):
    vt = {}
    for n in nodes:
        if n["op"] == "leaf":
            for v in n["scope"]:
                d = n["dist"]
                if d == "cltree":
                    d = "bernoulli" if len(n["cpt"][0][0][0][0]) == 2 else "categorical"
                vt[v] = d
    return vt


def gen_programs(dists, n_progs, seed, nvars=4, maxnodes=9, maxc=3, maxf=4, maxr=2, ops=ALLOPS,
                 splits="cons int idx", maxreps=False, num=60, check=None):
    """Programs from TLC's simulation of CircuitGen; a deterministic diverse selection."""
    st = lambda xs: "{" + ",".join('"%s"' % x for x in xs) + "}"
    cfg = f"""SPECIFICATION Spec
CONSTANTS NVars = {nvars} MaxNodes = {maxnodes} GC = {maxc} GF = {maxf} GR = {maxr} MaxReps = {str(maxreps).upper()}
 Dists_ = {st(dists)} Ops = {st(ops.split())} Splits = {st(splits.split())}
INVARIANTS WellFormed Emit
ACTION_CONSTRAINT Small
CHECK_DEADLOCK FALSE
"""
    out, stt = tlc("CircuitGen", cfg_text=cfg, workers=1,
                   extra=["-seed", str(seed), "-simulate", f"num={num}", "-depth", str(maxnodes + 2)])
    if check is not None:
        check.account("CircuitGen", stt)
    progs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"PROG (.*)"', out)]
    # greedy diversity: cover (op, child-op, arity, reps) combinations first
    seen, pick, rest = set(), [], []
    for p in progs:
        feats = set()
        for n in p:
            for i in n["ins"] or [0]:
                feats.add((kind(n), kind(p[i - 1]) if i else "", len(n["ins"])))
        new = feats - seen
        (pick if new else rest).append(p)
        seen |= feats
    rng = random.Random(seed)
    rng.shuffle(rest)
    return (pick + rest)[:n_progs], len(progs)


CONT = ["normal", "poisson", "gamma", "geometric", "exponential", "laplace", "log_normal", "uniform",
        "binomial", "negative_binomial", "hypergeometric", "categorical", "histogram"]


def corpus(check, k=1, disc=40, mixed=30, grid=14, splits=20, conv=True, seed=0, ops=ALLOPS, contdists=CONT, **kw):
    """Construction programs in four flavours (sizes scaled by k)."""
    out = []
    def cfg(dists, n, s, **a):
        if n:
            a.update(kw)
            ps, _ = gen_programs(dists, int(n * k), check.seed * 1000 + seed * 10 + s, num=int(max(30, n * k)), check=check, **a)
            out.extend(ps)
    cfg(["bernoulli", "categorical"], disc, 1, nvars=4, ops=ops)
    cfg(contdists, mixed, 2, nvars=4, ops=ops)
    cfg(["bernoulli"], splits, 3, nvars=8, maxf=8, maxc=2, ops=ops)
    if conv:
        cfg(["bernoulli", "categorical"], grid, 4, nvars=9, maxf=9, maxc=2, maxnodes=7,
            ops="pconv sconv sum cat2 rmix fact prod linsum")
    for i, p in enumerate(out):
        r = random.Random(check.seed * 77 + seed * 13 + i)
        for j, n in enumerate(p):
            p[j] = fill(n, r)
            p[j]["_variant"] = r.randint(0, 1)
    return out


def rand_row(rng, vt, nvars):
    return [val_of(rng, vt[v]) if v in vt else 7.0 for v in range(nvars)]


def tainted(nodes, n):
    """node whose own per-feature scope report is a known finding (C11)"""
    if n["op"] in ("einsum", "linsum"):
        return n["split"]["kind"] in ("cons", "idx")
    if n["op"] == "oprod":
        return n["split"]["kind"] == "none"
    return n["op"] == "rmix"


def below(nodes, i):
    """indices of the nodes node i depends on, itself excluded"""
    seen, todo = set(), list(nodes[i - 1]["ins"])
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            todo += nodes[j - 1]["ins"]
    return seen


def uses(nodes, i, what):
    seen, todo = set(), [i]
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            n = nodes[j - 1]
            if what in (n["op"], n.get("dist"), kind(n)):
                return True
            todo += n["ins"]
    return False


def ll_event(tr, prog, i, rows, tag, **kw):
    """evaluate module i on rows through the public API and record it"""
    m = prog.mods[i - 1]
    x = torch.tensor(rows)
    ok, out = tr.attempt(tag, lambda: m.log_likelihood(x))
    if ok:
        tr.add("ll", tag, m=i, rows=nums(rows), out=out_tokens(out), rows_after=nums(x), **kw)
    return ok


def joint_rows(doms, nvars, fillv=0.0):
    vs = sorted(doms)
    for combo in itertools.product(*[range(doms[v]) for v in vs]):
        row = [fillv] * nvars
        for v, x in zip(vs, combo):
            row[v] = float(x)
        yield row


# -------------------------------------------------------------- directed programs
def q(*dims):
    """nested '?' placeholders"""
    return "?" if not dims else [q(*dims[1:]) for _ in range(dims[0])]


def leaf_node(scope, C=1, R=1, dist="bernoulli", variant=0):
    k = {"categorical": CAT_K, "histogram": 3}.get(dist, 1)
    return {"op": "leaf", "ins": [], "dist": dist, "scope": list(scope), "aux": [], "par": q(R, len(scope), C, k), "_variant": variant}


def node(op, ins, split=None, **kw):
    return dict({"op": op, "ins": list(ins), "split": split or dict(NOSPLIT)}, **kw)


def rooted(nodes, i):
    """the sub-program of node i"""
    keep = sorted(below(nodes, i) | {i})
    return [dict(nodes[j - 1], ins=[keep.index(k) + 1 for k in nodes[j - 1]["ins"]]) for j in keep]


def sinks(nodes):
    """one sub-program per node that no other node uses"""
    used = {k for n in nodes for k in n["ins"]}
    return [rooted(nodes, i) for i in range(1, len(nodes) + 1) if i not in used]


def conv_groups(H, kh, kw, ph, pw):
    oh, ow = (H + 2 * ph) // kh, (H + 2 * pw) // kw
    rg = lambda o, k, p: [z for z in range(H) if o * k - p <= z < o * k - p + k]
    return [[a * H + b + 1 for a in rg(o, kh, ph) for b in rg(w, kw, pw)] for o in range(oh) for w in range(ow)]


def peaked(nodes, rng):
    """a copy of the program whose weights are almost all on few inputs"""
    out = json.loads(json.dumps(nodes))
    k = rng.choice((3, 6, 10))

    def flat2(x):
        return [y for q_ in x for y in flat2(q_)] if isinstance(x, list) else [x]

    def rec(x, depth):
        if depth == 0:
            s = sum(v ** k for v in flat2(x))
            f = lambda y: [f(z) for z in y] if isinstance(y, list) else max(y ** k / s, 1e-12)
            return f(x)
        return [rec(y, depth - 1) for y in x]

    for n in out:
        if "w" in n:
            d, x = 0, n["w"]
            while isinstance(x, list):
                d, x = d + 1, x[0]
            n["w"] = rec(n["w"], d - (2 if n["op"] == "einsum" else 1))
    return out


WIDE = {"poisson": [[45.0], [0.02], [12.0], [3.0]], "geometric": [[0.03], [0.97], [0.3]], "bernoulli": [[0.002], [0.999], [0.4]],
        "negative_binomial": [[9.0, 0.85], [1.0, 0.02], [4.0, 0.5]], "exponential": [[0.02], [40.0], [1.0]], "gamma": [[9.0, 0.2], [2.0, 30.0], [0.3, 4.0]],
        "normal": [[-30.0, 0.1], [25.0, 9.0], [0.0, 1.0]], "laplace": [[-30.0, 0.1], [25.0, 9.0], [0.0, 1.0]], "log_normal": [[-2.0, 0.2], [2.0, 1.0]],
        "uniform": [[-40.0, -30.0], [-0.5, 0.5], [3.0, 300.0]], "binomial": [[3.0, 0.003], [3.0, 0.99], [3.0, 0.5]]}


def family_programs(rng):
    """every leaf family with many different components, also with parameters far apart, below sums"""
    out = []
    for d in ["bernoulli"] + CONT:
        for wide in (0, 1, 2) if d in WIDE else (0,):
            F, C, R = 1 if d == "histogram" else 2, 3, rng.randint(1, 2)
            n = fill(leaf_node(range(F), C, R, d), rng)
            if wide:
                n["par"] = [[[list(rng.choice(WIDE[d])) for _ in range(C)] for _ in range(F)] for _ in range(R)]
                if wide == 2:  # one cell apart from all the others
                    one, rest = WIDE[d][:2]
                    n["par"] = [[[list(rest) for _ in range(C)] for _ in range(F)] for _ in range(R)]
                    rng.choice(rng.choice(rng.choice(n["par"])))[:] = one
            n["_variant"] = rng.randint(0, 1)
            p = [n, node("sum", [1], w=q(R, F, 2, C)), node("prod", [2]), node("rmix", [3], w=q(1, 2, R))]
            out.append([p[0]] + [fill(dict(x, _variant=rng.randint(0, 1)), rng) for x in p[1:]])
    return out


def directed_programs(rng, deep=False):
    """Shapes the generator does not reach: many parts, many inputs, wide channels, larger grids."""
    out = []
    split = lambda kind_, k, F: {"kind": kind_, "k": k, "idx": (lambda p: [p[i * (F // k):(i + 1) * (F // k)] for i in range(k)])(
        rng.sample(range(F), F)) if kind_ == "idx" else []}
    for kind_ in ("cons", "int", "idx"):
        for k in (2, 3, 4, 5) + ((6, 7) if deep else ()):
            for m in (1, 2, 3):
                F = k * m
                if F > (21 if deep else 12):
                    continue
                v = rng.randint(0, 1)
                ns = [leaf_node(range(F), 2, rng.randint(1, 2))]
                R = len(ns[0]["par"])
                sp = split(kind_, k, F)
                ns.append(node("eprod", [1], sp, _variant=v))
                if 2 ** k <= 16 or deep:
                    ns.append(node("oprod", [1], sp, _variant=1 - v))
                if k == 2:
                    ns.append(node("einsum", [1], sp, w=q(R, m, 3, 2, 2), _variant=v))
                    ns.append(node("linsum", [1], sp, w=q(R, m, 3, 2), _variant=1 - v))
                if m > 1:
                    ns.append(node("prod", [2]))
                out.append(ns)
    # wide channels: both orders of the factored contraction
    for cl, cr, co in ((18, 16, 3), (15, 18, 2), (16, 16, 4)):
        for F in (1, 2) if deep else (1,):
            ns = [leaf_node(range(F), cl, 2, "categorical"), leaf_node(range(F, 2 * F), cr, 2)]
            ns.append(node("einsum", [1, 2], w=q(2, F, co, cl, cr)))
            out.append(ns)
    # many inputs, unequal channels
    out.append([leaf_node([0, 1], c, 2) for c in (2, 1, 3, 1)] + [node("sum", [1, 2, 3, 4], w=q(2, 2, 3, 7))])
    out.append([leaf_node([0, 1], c, 2) for c in (3, 1, 3)] + [node("esum", [1, 2, 3], w=q(2, 2, 3, 2, 3))])
    out.append([leaf_node([0, 1], c, 1) for c in (2, 2, 2, 2)] + [node("esum", [1, 2, 3, 4], w=q(1, 2, 2, 3, 4)), node("cat2", [1, 2, 3])])
    out.append([leaf_node([2 * i, 2 * i + 1], c, 2) for i, c in enumerate((3, 1, 3, 3))] + [node("eprod", [1, 2, 3, 4])])
    for cs in ((2, 3, 2), (3, 1, 2), (1, 2, 4)):
        out.append([leaf_node([2 * i, 2 * i + 1], c, 2) for i, c in enumerate(cs)] + [node("oprod", [1, 2, 3]), node("oprod", [3, 1])])
    out.append([leaf_node([2 * i, 2 * i + 1], 2, 1) for i in range(4)] + [node("prod", [1, 2, 3, 4]), node("cat1", [4, 2, 1])])
    # inputs of one channel first, last and in between
    for cs in ((1, 3), (3, 1), (1, 2, 2), (2, 1, 2)):
        for R in (1, 2):
            lv = [leaf_node([i], c, R) for i, c in enumerate(cs)]
            ids = list(range(1, len(cs) + 1))
            out.append(lv + [node("eprod", ids), node("oprod", ids), node("sum", [len(cs) + 1], w=q(R, 1, 2, max(cs)))])
    # many factors given as modules of their own
    for cs, F in (((2, 1, 2, 2), 1), ((2, 2, 1, 2), 2), ((1, 2, 2, 1, 2), 1)):
        k, R = len(cs), rng.randint(1, 2)
        lv = [leaf_node(range(i * F, i * F + F), c, R) for i, c in enumerate(cs)]
        ids = rng.sample(range(1, k + 1), k)
        out.append(lv + [node("oprod", ids), node("sum", [k + 1], w=q(R, F, 2, math.prod(cs))), node("prod", [k + 1]),
                         node("eprod", ids), node("cat1", [i for i in ids if cs[i - 1] == 2])])
    # repetitions
    for F, C, R in ((2, 2, 3), (1, 3, 4)):
        out.append([leaf_node(range(F), C, R), node("rmix", [1], w=q(F, C, R)), node("sum", [1], w=q(R, F, 2, C)),
                    node("rmix", [3], w=q(F, 2, R))])
    # factorize: every depth, uneven groups
    for F, dep, R in ((5, 1, 2), (7, 2, 3), (9, 3, 2), (8, 3, 1), (3, 1, 4)):
        ns = [leaf_node(range(F), 2, R), node("fact", [1], depth=dep, groups=[[]] * R),
              node("sum", [2], w=q(R, 2 ** dep, 2, 2)), node("prod", [3])]
        out.append(ns)
        out.append([leaf_node(range(F), 2, 1), node("fact", [1], depth=dep, groups=[[]] * R, _variant=1)])
    # grids
    for H in (2, 3, 4):
        for kh, kw_, ph, pw in ((2, 2, 0, 0), (1, 2, 0, 0), (3, 3, 0, 0), (2, 1, 0, 0), (4, 2, 0, 0), (2, 2, 1, 1), (3, 3, 1, 1), (1, 3, 0, 0), (3, 1, 0, 0)):
            g = conv_groups(H, kh, kw_, ph, pw)
            if (H + 2 * ph) % kh or (H + 2 * pw) % kw_ or not g or not all(g):
                continue
            F = H * H
            out.append([leaf_node(range(F), 2, 2), node("pconv", [1], kern=[kh, kw_, ph, pw], groups=g)])
        for K in (1, 2, 3, 4):
            if H % K:
                continue
            out.append([leaf_node(range(H * H), 2, 2),
                        node("sconv", [1], ksize=K, w=q(2, K * K, 3, 2),
                             kpos=[((f // H) % K) * K + (f % H) % K + 1 for f in range(H * H)])])
    # long trees
    for par in ([0, 1, 2, 3, 4], [2, 3, 4, 5, 0], [3, 3, 0, 3, 3], [0, 1, 1, 2, 2], [2, 0, 2, 3, 3]):
        K, C, R = rng.choice([(2, 2, 1), (3, 1, 2), (2, 1, 2)])
        out.append([{"op": "leaf", "ins": [], "dist": "cltree", "scope": rng.sample(range(5), 5), "aux": [], "parent": par,
                     "cpt": [[[[["?"] * K for _ in range(1 if p == 0 else K)] for p in par] for _ in range(C)] for _ in range(R)]}])
    for p in out:
        for j, n in enumerate(p):
            v = n.get("_variant", rng.randint(0, 1))
            p[j] = fill(n, rng)
            p[j]["_variant"] = v
    return out
