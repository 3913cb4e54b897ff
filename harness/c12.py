"""C12: scopes behave like sets of variables; region graphs list every region once, children first."""
import itertools
from common import *
import numpy as np
import torch
from spflow.meta.data.scope import Scope
from spflow.meta.region_graph import Region, RegionGraph


def js(s):
    return {"q": [int(v) for v in s.query], "e": [int(v) for v in s.evidence]}


BOXES = {"list": list, "tuple": tuple, "numpy": np.array, "torch": torch.tensor, "iter": lambda v: iter(list(v)),
         "np_ints": lambda v: [np.int64(x) for x in v], "dictkeys": lambda v: {x: 0 for x in v}.keys()}


def new_event(tr, q, e, box):
    boxed = lambda v: v[0] if box == "int" and len(v) == 1 else (None if box == "none" and not v else BOXES.get(box, list)(list(v)))
    if box == "dictkeys" and (len(set(q)) != len(q) or len(set(e)) != len(e)):
        return
    if box in ("numpy", "torch") and not len(q):
        return
    if box in ("numpy", "torch"):
        arg = (boxed(q), boxed(e) if e else None)
    else:
        arg = (boxed(q), boxed(e))
    ev = {"qa": list(q), "ea": list(e), "raised": False}
    try:
        s = Scope(*arg)
    except Exception:  # noqa: BLE001
        ev["raised"] = True
    else:
        ev.update(out=js(s), len=len(s), empty=s.empty(), cond=s.is_conditional())
        if box == "list":
            [a.append(97) for a in arg]
            tr.add("eq", "new:" + box, clause="aliases_argument", a=js(s), b=ev["out"])
    tr.add("new", "new:" + box, **ev)


def constructors(job, rng, idx):
    tr = Trace(f"new{idx}")
    for q, e, box in job:
        new_event(tr, q, e, box)
    return tr


def order(rng, vs):
    vs = list(vs)
    rng.shuffle(vs)
    return vs


def mk(rng, s):
    return Scope(order(rng, s[0]), order(rng, s[1]))


def pair_event(tr, rng, a, b, how):
    """every binary operation of one pair"""
    A, B = mk(rng, a), mk(rng, b)
    ja, jb = js(A), js(B)
    ok, o = tr.attempt("pair", lambda: dict(
        join=js(A.join(B)), disjoint=A.isdisjoint(B), eq=A == B, ne=A != B, eqq=A.equal_query(B), eqe=A.equal_evidence(B),
        samehash=hash(A) == hash(B), inset=B in {A: 1}))
    if ok:
        tr.add("pair", "pair", a=ja, b=jb, a2=js(A), b2=js(B), **o)


def pairs(job, rng, idx):
    tr = Trace(f"pairs{idx}")
    for a, b in job:
        pair_event(tr, rng, a, b, 0)
        A = mk(rng, a)
        for c in (Scope.as_scope(A), A.copy(), Scope.as_scope(list(A.query)) if not A.evidence else A.copy()):
            tr.add("eq", "copy", clause="copy_differs", a=js(c), b=js(A))
        for v in range(4):
            ev = {"a": js(A), "v": v, "raised": False}
            try:
                ev["out"] = js(A.remove_from_query(v))
            except Exception:  # noqa: BLE001
                ev["raised"] = True
            tr.add("rem", "remove", **ev)
            tr.add("eq", "remove", clause="operand_changed", a=js(A), b=ev["a"])
    return tr


def lists(job, rng, idx):
    tr = Trace(f"lists{idx}")
    for ss in job:
        S = [mk(rng, s) for s in ss]
        gen = rng.random() < 0.3
        it = lambda: iter(S) if gen else S
        ok, o = tr.attempt("lists", lambda: dict(join=js(Scope.join_all(it())), disjoint=Scope.all_pairwise_disjoint(it()),
                                                 equal=Scope.all_equal(it())))
        if ok:
            tr.add("list", "lists", ss=[js(s) for s in S], **o)
    return tr


def replay_region(hist, rng, idx):
    tr = Trace(f"region{idx}")
    regs, no = [], {}

    def num_of(r):
        return no[id(r)]
    for h in hist:
        if h["op"] == "new":
            s = Scope(order(rng, h["q"]), order(rng, h["e"]))
            regs.append(Region(s))
            no[id(regs[-1])] = len(regs)
            tr.add("region", "region", s=js(s))
        elif h["op"] == "part":
            r = regs[h["r"] - 1]
            ev = {"r": h["r"], "ms": h["ms"], "raised": False}
            try:
                r.add_partition(tuple(regs[m - 1] for m in h["ms"]))
            except Exception:  # noqa: BLE001
                ev["raised"] = True
            ev["parts"] = [[num_of(c) for c in p] for p in r.children]
            tr.add("part", "partition", **ev)
        else:
            g = RegionGraph(regs[h["r"] - 1])
            ok, o = tr.attempt("list_regions", lambda: dict(regions=[num_of(x) for x in g.regions], post=[num_of(x) for x in g.post_order()]))
            if ok:
                tr.add("ls", "list_regions", r=h["r"], **o)
    return tr


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def main(check):
    q = check.quick()
    nv = 3 if q else 4
    check.design("ScopeMC", "SPECIFICATION Spec\nCONSTANT U = {%s}\nINVARIANTS Closed Commutes Associates Idempotent Accumulates\nCHECK_DEADLOCK FALSE\n"
                 % ",".join(map(str, range(3))))
    U = range(nv)
    subsets = [c for k in range(nv + 1) for c in itertools.combinations(U, k)]
    scopes = [(a, b) for a in subsets for b in subsets if not set(a) & set(b) and (a or not b)]
    # every argument list over -1..2, in every container
    seqs = [s for k in range(4) for s in itertools.product(range(-1, 3), repeat=k)]
    args = [(a, b, box) for a in seqs for b in seqs for box in ["list"]]
    args = check.rng.sample(args, 1500 if q else len(args))
    short = [s for s in seqs if len(s) < 3]
    args += [(a, b, box) for box in (*BOXES, "int", "none") for a, b in check.rng.sample(list(itertools.product(short, short)), 60 if q else 400)]
    ps = list(itertools.product(scopes, scopes))
    trip = [ss for k in (1, 2, 3) for ss in itertools.product(scopes, repeat=k)]
    wide = [tuple(check.rng.choice(scopes) for _ in range(check.rng.randint(4, 6))) for _ in range(300)]
    big = [((i,), ()) for i in range(60)]
    wide += [tuple(check.rng.choice(big) for _ in range(5)) for _ in range(100)]
    ls = check.rng.sample(trip, min(len(trip), 2500 if q else 40000)) + wide
    trs = pmap(constructors, chunks(args, 200), check.seed) + pmap(pairs, chunks(ps, 100), check.seed) + pmap(lists, chunks(ls, 250), check.seed)
    hs = histories(check, "RegionGen", f"NV = {3 if q else 4} MaxLen = 18", 250 if q else 2500, 18, check.seed, invariants=("Covered",))
    trs += pmap(replay_region, hs, check.seed)
    check.run("ScopeTrace", trs)
