"""An existing module graph -> nodes of the specification (structure and current parameters are read off the modules)."""
from circuits import *
from spflow.modules.ops.split import Split
from spflow.modules.wrapper.base import Wrapper
from spflow.modules.wrapper.image_wrapper import ImageWrapper
from spflow.zoo.conv.conv_pc import ConvPc
from spflow.zoo.rat.rat_spn import RatSPN
from spflow.zoo.einet.einet import Einet
from spflow.zoo.naive_bayes import NaiveBayes
from spflow.zoo.cms.joint import JointLogLikelihood

LEAVES = {"Bernoulli": "bernoulli", "Binomial": "binomial", "Categorical": "categorical", "Exponential": "exponential", "Gamma": "gamma",
          "Geometric": "geometric", "Laplace": "laplace", "LogNormal": "log_normal", "NegativeBinomial": "negative_binomial",
          "Normal": "normal", "Poisson": "poisson", "Uniform": "uniform", "SignedCategorical": "signed_categorical", "Hypergeometric": "hypergeometric", "Histogram": "histogram"}


INNER = {"Cat", "Product", "JointLogLikelihood", "ElementwiseProduct", "OuterProduct", "Factorize", "ProdConv", "SumConv", "Sum",
         "SignedSum", "ElementwiseSum", "RepetitionMixingLayer", "EinsumLayer", "LinsumLayer", "ImageWrapper"}


class NotCovered(Exception):
    """the specification has no node for this module"""


def transparent(m):
    """the module a forwarding module stands for, if it is one"""
    if isinstance(m, (RatSPN, Einet, NaiveBayes)):
        return m.root_node
    if isinstance(m, ConvPc):
        return m.inputs
    return None


def split_node(sp):
    f = sp.inputs.out_shape.features
    k = sp.num_splits
    groups = sp.split_features(list(range(f)))
    if type(sp).__name__ == "SplitConsecutive":
        return {"kind": "cons", "k": k, "idx": []}
    if type(sp).__name__ == "SplitInterleaved":
        return {"kind": "int", "k": k, "idx": []}
    return {"kind": "idx", "k": k, "idx": [list(map(int, g)) for g in groups]}


def children_of(m):
    """modules a module reads its inputs from, splits resolved: (modules, split node)"""
    ins = m.module if isinstance(m, Wrapper) else m.inputs
    ins = [ins] if isinstance(ins, Module) else list(ins)
    if len(ins) == 1 and isinstance(ins[0], Split):
        return [ins[0].inputs], split_node(ins[0])
    return ins, dict(NOSPLIT)


def import_module(tr, root, prog=None, tag="import"):
    """append the nodes below root to prog (one per distinct module); returns (prog, index of root)"""
    prog = prog or Prog(tr, [])
    seen = {id(m): i for i, m in enumerate(prog.mods, 1)}

    def go(m):
        if id(m) in seen:
            return seen[id(m)]
        t = transparent(m)
        if t is not None:
            seen[id(m)] = go(t)
            return seen[id(m)]
        n = read(m)
        prog.adopt(m, n, tag + ":" + kind(n))
        seen[id(m)] = len(prog.mods)
        return len(prog.mods)

    def read(m):
        c = type(m).__name__
        if isinstance(m, CLTree):
            r, ch, f = m.log_cpt.shape[2], m.log_cpt.shape[1], m.log_cpt.shape[0]
            n = {"op": "leaf", "ins": [], "dist": "cltree", "scope": [int(v) for v in m.scope.query], "aux": [],
                 "parent": [int(p) + 1 for p in m.parents], "cpt": [[0] * ch for _ in range(r)]}
            return read_leaf(m, n)
        if c in LEAVES:
            n = {"op": "leaf", "ins": [], "dist": LEAVES[c], "scope": [int(v) for v in m.scope.query], "aux": []}
            if c == "Histogram":
                n["aux"] = [float(x) for x in m.bin_edges]
            return read_leaf(m, n)
        if c not in INNER:
            raise NotCovered(c)
        ins, sp = children_of(m)
        ids = [go(x) for x in ins]
        if c == "Cat":
            if m.dim not in (1, 2):
                raise NotCovered("Cat dim")
            return node(f"cat{m.dim}", ids)
        if c in ("Product", "JointLogLikelihood"):
            return node("prod", ids)
        if c == "ElementwiseProduct":
            return node("eprod", ids, sp)
        if c == "OuterProduct":
            return node("oprod", ids, sp)
        if c == "Factorize":
            idx = m.indices  # in, out, r
            return node("fact", ids, depth=m.depth, reps=idx.shape[2], groups=[[[i + 1 for i in range(idx.shape[0]) if idx[i, o, r] > 0]
                                                             for o in range(idx.shape[1])] for r in range(idx.shape[2])])
        if c == "ProdConv":
            h = m._input_h
            k = [m.kernel_size_h, m.kernel_size_w, m.padding_h, m.padding_w]
            return node("pconv", ids, kern=k, groups=conv_groups(h, *k))
        if c == "SumConv":
            f, K = m.out_shape.features, m.kernel_size
            h = int(round(f ** 0.5))
            return read_node(m, node("sconv", ids, ksize=K, kpos=[((i // h) % K) * K + (i % h) % K + 1 for i in range(f)], w=[]))
        ops = {"Sum": "sum", "SignedSum": "sum", "ElementwiseSum": "esum", "RepetitionMixingLayer": "rmix", "EinsumLayer": "einsum", "LinsumLayer": "linsum"}
        if c not in ops:
            raise NotCovered(c)
        if c == "RepetitionMixingLayer":
            return dict(node("rmix", ids), w=m.weights.detach().tolist())
        return read_node(m, dict(node(ops[c], ids, sp), w=[]))

    return prog, go(root)


def refresh(tr, prog, tag="refresh"):
    """tell the specification the parameters the modules hold now"""
    for j, (m, n) in enumerate(zip(prog.mods, prog.nodes), 1):
        if n["op"] == "leaf" or "w" in n:
            with torch.enable_grad():
                new = read_node(m, dict(n))
            prog.nodes[j - 1] = new
            tr.add("upd", tag, j=j, node=to_spec(new))
