"""C22: structure statistics, displays and drawings; temporary method replacement."""
import copy
import inspect
import re
import pydot
from circuits import *
from gallery import GALLERY
from sampling import NAN

from spflow.learn.expectation_maximization import expectation_maximization
from spflow.modules.module import Module
from spflow.modules.ops.split import Split
from spflow.utils.replace import replace
from spflow.utils.structure_stats import get_structure_stats, structure_stats_to_str
from spflow.utils.visualization import visualize


def children(m):
    """the modules a module is made of, from torch's own registry"""
    reg = m._modules
    inner = lambda c: [x for x in c if isinstance(x, Module)] if isinstance(c, torch.nn.ModuleList) else [c] if isinstance(c, Module) else []
    kids = [x for k in ("module", "inputs", "root_node") for x in inner(reg.get(k))]
    return kids or [x for c in reg.values() for x in inner(c)]


def graph(root):
    order, index, todo = [root], {id(root): 1}, [root]
    while todo:
        m = todo.pop(0)
        for c in children(m):
            if id(c) not in index:
                order.append(c)
                index[id(c)] = len(order)
                todo.append(c)
    g = []
    ids = {}
    for m in order:
        only = isinstance(m._modules.get("inputs"), Module)
        s = m.out_shape
        g.append({"type": type(m).__name__, "kids": [index[id(c)] for c in children(m)], "only": only and len(children(m)) == 1,
                  "cat": type(m) is Cat, "skip": isinstance(m, (Cat, Split)), "nscope": len(m.scope.query), "scope": [int(v) for v in m.scope.query],
                  "D": int(s.features), "C": int(s.channels), "R": int(s.repetitions), "reps": int(getattr(m, "num_repetitions", None) or s.repetitions),
                  "tensors": [{"id": ids.setdefault(id(p), len(ids) + 1), "name": n, "size": int(p.numel())} for n, p in m._parameters.items() if p is not None]})
    return order, index, g


def hist(d):
    return [[k, int(v)] for k, v in d.items()]


def unfolded(g, i=0, memo=None):
    memo = {} if memo is None else memo
    if i not in memo:
        memo[i] = 1 + sum(unfolded(g, k - 1, memo) for k in g[i]["kids"])
    return memo[i]


def scope_text(t):
    if t.startswith("{"):
        return [int(v) for v in t[1:-1].split(",")]
    a, b = re.fullmatch(r"(\d+)-(\d+)", t).groups()
    return list(range(int(a), int(b) + 1))


def parse_tree(text):
    out = []
    for line in text.split("\n"):
        last = []
        while True:
            p = line[:3]
            if p in ("├─ ", "└─ "):
                last.append(p == "└─ ")
                line = line[3:]
                break
            if p in ("│  ", "   "):
                last.append(p == "   ")
                line = line[3:]
            else:
                break
        m = re.fullmatch(r"(\w+) \[D=(\d+), C=(\d+)(?:, R=(\d+))?\](?: \[weights: [^\]]*\])?(?: → scope: (.*))?", line)
        if not m:
            return None, line
        out.append({"last": last, "type": m[1], "D": int(m[2]), "C": int(m[3]), "R": int(m[4] or 0), "scope": scope_text(m[5]) if m[5] else []})
    return out, None


def show(tr, tag, m, g, depth, scopes, params):
    ok, text = tr.attempt(tag, lambda: m.to_str(max_depth=depth, show_scope=scopes, show_params=params))
    if not ok:
        return
    lines, bad = parse_tree(text)
    if lines is None:
        tr.add("eq", tag, clause="line_format", a="", b=bad)
        return
    tr.add("show", tag, g=g, depth=-1 if depth is None else depth, scopes=scopes, out=lines)


def capture(f):
    """the graph a drawing call hands to graphviz"""
    got = []
    old = pydot.Dot.write_dot
    pydot.Dot.write_dot = lambda self, path, prog=None, **kw: got.append(self)
    try:
        f()
    finally:
        pydot.Dot.write_dot = old
    return got[0]


def ranges(t):
    out = []
    for p in t.split(","):
        p = p.strip()
        if "..." in p:
            a, b = p.split("...")
            out += list(range(int(a), int(b) + 1))
        elif p:
            out.append(int(p))
    return out


def draw(tr, tag, m, g, index, skip):
    ok, dot = tr.attempt(tag, lambda: capture(lambda: visualize(m, "unused", format="dot", skip_ops=skip)))
    if not ok:
        return
    at = lambda name: index.get(int(name.strip('"')), 0)
    nodes = []
    for n in dot.get_nodes():
        if not n.get_name().strip('"').isdigit():
            continue
        lab = n.get_label()
        out = re.search(r"Out: D=(\d+)\s+C=(\d+)\s+R=(\d+)", lab)
        par = re.search(r"Params: ([\d.]+)([KM]?)<", lab)
        sc = re.search(r"Scope: ([^<]*)<", lab)
        nodes.append({"node": at(n.get_name()), "type": re.search(r"<B>(\w+)</B>", lab)[1], "D": int(out[1]), "C": int(out[2]), "R": int(out[3]),
                      "scope": ranges(sc[1]), "params": 0 if not par else int(par[1]) if not par[2] else -1})
    tr.add("draw", tag, g=g, skip=skip, nodes=nodes, edges=[[at(e.get_source()), at(e.get_destination())] for e in dot.get_edges()])


def reports(tr, name, m, rng, deep=True):
    order, index, g = graph(m)
    tag = "stats:" + name
    ok, s = tr.attempt(tag, lambda: get_structure_stats(m))
    if ok:
        d = s.to_dict()
        tr.add("stats", tag, g=g, out={"nodes": d["num_nodes_total"], "edges": d["num_edges_total"], "params": d["num_parameters_total"],
                                       "types": hist(d["node_type_counts"]), "ptypes": hist(d["parameter_type_counts"]), "depth": d["max_depth"],
                                       "smin": d["scope_size_min"], "smax": d["scope_size_max"], "smean": num(d["scope_size_mean"]),
                                       "scopes": hist(d["scope_size_histogram"]), "shared": d["num_shared_nodes"], "dag": d["is_dag"]})
        ok, text = tr.attempt(tag + ":text", lambda: structure_stats_to_str(s))
        if ok:
            got = dict(re.findall(r"- (\w+): (\S+)", text))
            tr.add("eq", tag + ":text", clause="summary", a=[str(d[k]) for k in ("num_nodes_total", "num_edges_total", "num_parameters_total", "max_depth", "num_shared_nodes")],
                   b=[got.get(k) for k in ("nodes", "edges", "parameters", "max_depth", "shared_nodes")])
    if unfolded(g) <= 400:
        show(tr, "show:" + name, m, g, None, True, True)
    for depth in (0, 1, rng.choice([2, 3, 4])):
        show(tr, "show:" + name, m, g, depth, rng.random() < 0.7, rng.random() < 0.5)
    ok, text = tr.attempt("show:" + name, lambda: m.to_str(format="pytorch"))
    if ok:
        tr.add("eq", "show:" + name, clause="pytorch_format", a=repr(m), b=text)
    if unfolded(g) <= 3000:
        draw(tr, "draw:" + name, m, g, index, True)
        draw(tr, "draw:" + name, m, g, index, False)


def tie(mods, rng):
    """share one parameter tensor between two modules"""
    ps = [(m, n, p) for m in mods for n, p in m._parameters.items() if p is not None]
    pairs = [(a, b) for a in ps for b in ps if a[0] is not b[0] and a[2].shape == b[2].shape]
    if pairs:
        a, b = rng.choice(pairs)
        b[0]._parameters[b[1]] = a[2]


def circuit(nodes, rng, idx):
    tr = Trace(f"circuit{idx}")
    prog = Prog(tr, nodes)
    if not prog.ok:
        return tr
    tr.events = []
    if rng.random() < 0.4:
        tie(prog.mods, rng)
    name = kind(nodes[-1])
    reports(tr, name, prog.mods[-1], rng)
    if rng.random() < 0.3:
        reports(tr, name + ":meta", copy.deepcopy(prog.mods[-1]).to("meta"), rng)
    return tr


def gallery(item, rng, idx):
    name, (build, data, caps) = item
    tr = Trace(name)
    ok, m = tr.attempt(name, lambda: build(random.Random(rng.randrange(10 ** 6))))
    if ok:
        reports(tr, name, m, rng)
    return tr


# ---------------------------------------------------------------------------
class Probe(Sum):
    @staticmethod
    def fixed(x):
        return 0

    @classmethod
    def named(cls, x):
        return 0 if cls is not None and issubclass(cls, Probe) else -1

    def plain(self, x):
        return 0


class SubProbe(Probe):
    pass


def probes():
    """method references with: replacements by number, and a call telling which one is active"""
    leaf = lambda v: L.Normal(Scope([v]), out_channels=2)
    s = Sum(Product([leaf(0), leaf(1)]), out_channels=2)
    two = Product([Sum(leaf(0), out_channels=1), Sum(leaf(1), out_channels=1)])
    p = SubProbe(leaf(0), out_channels=1)
    x = torch.zeros(3, 2)
    ran = []

    def ll(m, inst):
        def go():
            ran.clear()
            inst.log_likelihood(x)
            mine = [k for i, k in ran if i == m]
            return mine[0] if mine else 0
        return go

    def const(m, shape):
        def make(k):
            def fake(self, data, cache=None):
                ran.append((m, k))
                return torch.zeros((data.shape[0], *shape(self)))
            return fake
        return make
    sh = lambda self: (self.out_shape.features, self.out_shape.channels, self.out_shape.repetitions)

    through = ll(1, two)  # seen through a circuit: two replaced sums below a product
    return [
        (Sum, "log_likelihood", const(1, sh), ll(1, s)),
        (Product, "log_likelihood", const(2, sh), ll(2, Product([leaf(0), leaf(1)]))),
        (L.Normal, "log_likelihood", const(3, sh), ll(3, leaf(0))),
        (Module, "to_str", lambda k: (lambda self, *a, **kw: k), lambda: (lambda r: r if isinstance(r, int) else 0)(s.to_str())),
        (Probe, "fixed", lambda k: (lambda x: k), lambda: p.fixed(1) if Probe.fixed(1) == p.fixed(1) else -1),
        (Probe, "named", lambda k: (lambda cls, x: k if inspect.isclass(cls) else -1), lambda: p.named(1) if SubProbe.named(1) == p.named(1) else -1),
        (Probe, "plain", lambda k: (lambda self, x: k), lambda: p.plain(1)),
    ], through


class Unwind(Exception):
    pass


class Close(BaseException):
    pass


def replacement(h, rng, idx):
    tr = Trace(f"replace{idx}")
    ms, through = probes()
    owner = [next(c for c in cls.__mro__ if name in c.__dict__) for cls, name, _, _ in ms]
    before = [inspect.getattr_static(o, m[1]) for o, m in zip(owner, ms)]
    had = [name in cls.__dict__ for cls, name, _, _ in ms]
    refs = [getattr(cls, name) for cls, name, _, _ in ms]
    seen, done, opened = [], [], []
    stack = []

    def level(pos):
        while pos < len(h):
            a = h[pos]
            if a["op"] == "enter":
                m = a["m"] - 1
                done.append(a)
                stack.append(a)
                try:
                    with replace(refs[m], ms[m][2](a["k"])):
                        pos = level(pos + 1)
                except (Unwind, Close) as u:
                    stack.pop()
                    n, pos = u.args
                    if n > 1:
                        raise type(u)(n - 1, pos)
                else:
                    stack.pop()
            elif a["op"] == "exit":
                done.append(a)
                if a["how"] == "end":
                    return pos + 1
                raise (Unwind if a["how"] == "raise" else Close)(a["n"], pos + 1)
            else:
                done.append(a)
                f = ms[a["m"] - 1][3]
                if a["m"] == 1 and not any(b["m"] == 2 for b in stack) and rng.random() < 0.5:
                    f = through
                seen.append(f())
                pos += 1
        return pos
    # unfinished blocks are closed at the end
    try:
        ok, _ = tr.attempt("replace", lambda: level(0))
    finally:
        restored = all(inspect.getattr_static(o, m[1]) is b and (m[1] in m[0].__dict__) == hd for o, m, b, hd in zip(owner, ms, before, had))
        for o, m, b in zip(owner, ms, before):
            if inspect.getattr_static(o, m[1]) is not b:
                setattr(o, m[1], b)
    if ok:
        tr.add("replaced", "replace", h=[{k: v for k, v in a.items() if k != "how"} for a in done], seen=seen, restored=restored)
    return tr


def transparent(nodes, rng, idx):
    """replacing methods by ones that do the same changes nothing"""
    tr = Trace(f"same{idx}")
    prog = Prog(tr, nodes)
    if not prog.ok:
        return tr
    n = len(nodes)
    m = prog.mods[-1]
    vt = var_types(nodes)
    nv = max(vt) + 1
    rows = [rand_row(rng, vt, nv) for _ in range(4)]
    holes = [[NAN if rng.random() < 0.4 and v in vt else x for v, x in enumerate(r)] for r in rows]

    def same(cls, name):
        old = inspect.unwrap(getattr(cls, name))

        def again(self, *a, **kw):
            return old(self, *a, **kw)
        return getattr(cls, name), again
    cls = rng.choice([Sum, Product, L.Bernoulli])
    with replace(*same(cls, "log_likelihood")):
        for rs in (rows, holes):
            ok, out = tr.attempt("same:ll", lambda: m.log_likelihood(torch.tensor(rs)))
            if ok:
                tr.add("ll", "same:ll", m=n, rows=nums(rs), out=out_tokens(out))
    a, b = copy.deepcopy(m), copy.deepcopy(m)

    def step(x):
        x.zero_grad()
        expectation_maximization(x, torch.tensor(rows), max_steps=2)
        return [nums(p.detach().flatten()) for p in x.parameters()]

    def draws(x):
        torch.manual_seed(idx)
        return nums(x.sample_with_evidence(torch.tensor(holes)).flatten())

    def settle(f, x):
        try:
            return f(x)
        except Exception as e:  # noqa: BLE001
            return type(e).__name__
    if all(q_["op"] in ("sum", "prod", "leaf", "cat1", "cat2", "eprod") for q_ in nodes):
        for name, f in (("em", step), ("sample", draws)):
            want = settle(f, a)
            with replace(*same(cls, "log_likelihood")):
                got = settle(f, b)
            tr.add("eq", "same:" + name, clause="differs_inside_block", a=want, b=got)
    return tr


def rejects(i, rng, idx):
    tr = Trace("reject")
    R = tr.must_raise

    def block(ref):
        with replace(ref, lambda self: 1):
            pass
    R("replace:not_callable", lambda: block("log_likelihood"))
    R("replace:no_class", lambda: block(len))
    R("replace:nameless", lambda: block(type("X", (), {"__call__": lambda self: 1})()))
    R("show:format", lambda: L.Normal(Scope([0])).to_str(format="xml"))
    R("draw:format", lambda: visualize(L.Normal(Scope([0])), "unused", format="xml"))
    return tr


def main(check):
    qk = check.quick()
    k = 1.5 if qk else 8
    progs = corpus(check, k, seed=3)
    trs = pmap(circuit, progs + directed_programs(random.Random(check.seed)), check.seed)
    trs += pmap(gallery, list(GALLERY.items()), check.seed + 1)
    hs = histories(check, "ReplaceGen", "Methods = 7 MaxLen = 12", 400 if qk else 3000, 14, check.seed)
    trs += pmap(replacement, hs, check.seed + 2)
    trs += pmap(transparent, corpus(check, 0.7 if qk else 4, seed=4, mixed=0, splits=0, conv=False), check.seed + 3)
    trs += pmap(rejects, [0], check.seed)
    check.run("LibTrace", [t for t in trs if t.events])
