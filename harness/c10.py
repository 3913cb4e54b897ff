"""C10: memoised inference is transparent and computed once per cache."""
import gc, threading, weakref
from circuits import *
from spflow.utils.cache import Cache, cached
from spflow.modules.wrapper.base import Wrapper
from spflow.learn.expectation_maximization import expectation_maximization

KIDS = {1: (2, 3), 2: (3, 3), 3: (), 4: ()}


class Plainer(torch.nn.Module):
    """a module with two decorated methods over the Kids graph of Cache.tla"""

    def __init__(self, name, kids, log):
        super().__init__()
        self.name, self.kids, self.own, self.log = name, kids, name, log

    @cached
    def f(self, data=None, cache=None):
        v = self.own + sum(k.f(data, cache=cache) for k in self.kids)
        self.log.append(self.name)
        return v

    @cached
    def g(self, data=None, cache=None):
        v = self.own + sum(k.g(data, cache=cache) for k in self.kids)
        self.log.append(self.name)
        return v


def replay_api(hist, rng, idx):
    """a generated history of direct cache use"""
    tr = Trace(f"api{idx}")
    log, mods = [], {}
    for m in (4, 3, 2, 1):
        mods[m] = Plainer(m, [mods[k] for k in KIDS[m]], log)
    caches = {}
    C = lambda c: caches.setdefault(c, Cache())
    for h in hist:
        tag, f = "api:" + h["op"], h.get("f", "")
        base = {k: h[k] for k in ("c", "f", "m", "v") if k in h}
        op = h["op"]
        if op == "get":
            r = C(h["c"]).get(f, mods[h["m"]])
            if r is not None and rng.random() < 0.3 and C(h["c"])[f].get(mods[h["m"]]) != r:
                r = "mapping and get differ"
            tr.add("get", tag, res="none" if r is None else r, **base)
        elif op == "set":
            C(h["c"]).set(f, mods[h["m"]], h["v"])
            tr.add("set", tag, **base)
        elif op == "has":
            tr.add("has", tag, res=f in C(h["c"]), **base)
        elif op == "keys":
            tr.add("keys", tag, res=[m.name for m in C(h["c"])[f].keys()], **base)
        elif op in ("call", "fresh"):
            del log[:]
            kw = {"cache": C(h["c"])} if op == "call" else rng.choice(({}, {"cache": None}))
            ok, r = tr.attempt(tag, lambda: getattr(mods[h["m"]], f)(None, **kw))
            if ok:
                tr.add(op, tag, res=r, log=list(log), **base)
        elif op == "change":
            mods[h["m"]].own += 10
            tr.add("change", tag, **base)
        elif op == "drop":
            ref = weakref.ref(mods.pop(4))
            if ref() is not None:
                gc.collect()
            tr.add("drop", tag, **base)
        elif op == "revive":
            mods[4] = Plainer(4, [], log)
            tr.add("revive", tag, **base)
    return tr


# ------------------------------------------------------------------ circuits
class Probe(Wrapper):
    """Transparent wrapper reporting when its value is computed."""
    hook = None

    @cached
    def log_likelihood(self, data, cache=None):
        Probe.hook("begin", self, cache, None)
        out = self.module.log_likelihood(data, cache=cache)
        Probe.hook("end", self, cache, out)
        return out

    def _expectation_maximization_step(self, data, bias_correction=True, *, cache):
        self.module._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)

    def marginalize(self, *a, **k):
        raise NotImplementedError


class Ids:
    """small integers for objects, which stay alive"""

    def __init__(self):
        self.n, self.keep = {}, []

    def __call__(self, o):
        if id(o) not in self.n:
            self.n[id(o)] = len(self.keep) + 1
            self.keep.append(o)
        return self.n[id(o)]


class PProg(Prog):
    """modules interleaved with probes: every consumer sees probes as inputs"""

    def __init__(self, tr, nodes):
        self.mids, self.cids, self.vids, self.ev = Ids(), Ids(), Ids(), None
        super().__init__(tr, nodes)

    def mk(self, n, obs=False, tag=None):
        m = super().mk(n, obs, tag)
        if m is not None:
            self.mods[-1] = Probe(m)
        return m



def replay_circuit(nodes, rng, idx):
    """evaluation histories of a real circuit: [value trace, cache trace]"""
    tv, tc = Trace(f"prog{idx}"), Trace(f"cache{idx}")
    prog = PProg(tv, nodes)
    if not prog.mods:
        return [tv]
    kinds = {id(p): kind(prog.nodes[i]) for i, p in enumerate(prog.mods)}
    lock = threading.Lock()
    sched = {"on": None}

    def hook(e, probe, cache, out):
        if sched["on"]:
            sched["on"]()
        with lock:
            kw = {} if out is None else {"res": prog.vids(out)}
            tc.add(e, "eval:" + kinds[id(probe)], c=prog.cids(cache), f="log_likelihood", m=prog.mids(probe), **kw)
    Probe.hook = hook
    vt = var_types(prog.nodes)
    nv = max(vt) + 1
    rows = [rand_row(rng, vt, nv) for _ in range(3)]
    rows2 = [rand_row(rng, vt, nv) for _ in range(2)]
    x, y = torch.tensor(rows), torch.tensor(rows2)
    N = len(prog.mods)
    kd = lambda i: kind(prog.nodes[i - 1])

    def llev(i, out, rws, tag):
        tv.add("ll", tag, m=i, rows=nums(rws), out=out_tokens(out), rows_after=nums(rws))

    def ask(i, data, cache, tag):
        p = rng.choice((prog.mods[i - 1], prog.mods[i - 1].module))
        how = rng.randrange(2)
        f = (lambda: p.log_likelihood(data, cache=cache)) if how else (lambda: p(data, cache))
        ok, out = tv.attempt(tag, f)
        if ok:
            tc.add("result", tag, c=prog.cids(cache), f="log_likelihood", m=prog.mids(p), res=prog.vids(out))
        return out if ok else None

    roots = rng.sample(range(1, N + 1), min(N, 3))
    for r in roots:
        # one cache for the whole evaluation, then every part asked again, also with other data
        c = Cache()
        out = ask(r, x, c, "eval:" + kd(r))
        if out is not None:
            llev(r, out, rows, "cached:" + kd(r))
        order = list(below(prog.nodes, r) | {r}) * 2
        rng.shuffle(order)
        for j in order:
            o = ask(j, rng.choice((x, x, y)), c, "again:" + kd(j))
            if o is not None and rng.random() < 0.2:
                llev(j, o, rows, "again:" + kd(j))
        ok, o = tv.attempt("plain:" + kd(r), lambda: prog.mods[r - 1].log_likelihood(x))
        if ok:
            llev(r, o, rows, "plain:" + kd(r))
        # parts first, in any order
        c = Cache()
        order = list(below(prog.nodes, r) | {r})
        rng.shuffle(order)
        for j in order:
            ask(j, x, c, "parts:" + kd(j))
        o = ask(r, x, c, "parts:" + kd(r))
        if o is not None:
            llev(r, o, rows, "parts:" + kd(r))
    # conditional sampling and decoding compute the evidence once and do not disturb the cache
    for r in roots[:2]:
        if any(prog.nodes[j - 1]["op"] == "rmix" for j in below(prog.nodes, r) | {r}):
            continue
        c = Cache()
        before = ask(r, x, c, "mpe:" + kd(r))
        z = x.clone()
        z[:, list(prog.mods[r - 1].scope.query)[0]] = math.nan
        c = Cache()
        q = {"channel_index": None}
        try:
            (prog.mods[r - 1].mpe if rng.random() < 0.5 else prog.mods[r - 1].sample_with_evidence)(z.clone() if rng.random() < 0.5 else z, cache=c)
        except Exception:  # noqa: BLE001  (what may be sampled is C05-C07's business)
            pass
    # one EM step: the evaluation pass computes every module once
    # parameters changed: new caches see them, old caches keep what they promised
    c = Cache()
    r = roots[0]
    ask(r, x, c, "old:" + kd(r))
    cand = [j for j in below(prog.nodes, r) | {r} if "w" in prog.nodes[j - 1] or prog.nodes[j - 1]["op"] == "leaf"]
    if cand:
        j = rng.choice(cand)
        n2 = perturb(prog, j, rng)
        if n2 is not None:
            tv.add("upd", "upd:" + kd(j), j=j, node=to_spec(n2))
            prog.nodes[j - 1] = n2
            ask(r, x, c, "old:" + kd(r))
            for cc in (None, Cache()):
                ok, o = tv.attempt("changed:" + kd(r), lambda: prog.mods[r - 1].log_likelihood(x, cache=cc))
                if ok:
                    llev(r, o, rows, "changed:" + kd(r))
    # threads
    for trial in range(2):
        shared = trial == 1
        jobs = [(rng.choice(roots), rng.choice(((x, rows), (y, rows2)))) for _ in range(rng.choice((2, 3)))]
        if shared:
            jobs = [(j[0], (x, rows)) for j in jobs]
        run_threads(prog, jobs, shared, rng, tv, tc, sched, llev, kd)
    return [tv, tc]


def perturb(prog, j, rng):
    """changes the parameters of module j in place; the node it then is"""
    m, n = prog.mods[j - 1].module, prog.nodes[j - 1]
    ps = [p for p in m.parameters(recurse=False)]
    if not ps or n["op"] == "leaf" and n["dist"] not in ("bernoulli", "categorical", "normal", "poisson", "exponential", "gamma"):
        return None
    how = rng.randrange(3)
    p = rng.choice(ps)
    if how == 0:
        with torch.no_grad():
            p.add_(torch.randn_like(p) * 0.3)
    elif how == 1:
        p.data = p.data + torch.randn_like(p) * 0.3
    else:
        m.load_state_dict({k: v + torch.randn_like(v) * 0.3 if any(v.shape == q.shape and torch.equal(v, q) for q in ps) else v
                           for k, v in m.state_dict().items()})
    return read_node(m, n)


def run_threads(prog, jobs, shared, rng, tv, tc, sched, llev, kd):
    """every thread evaluates under its own cache (or all under one); probes hand over control at random"""
    n = len(jobs)
    turn, cond, alive, live = [0], threading.Condition(), set(range(n)), {}
    seed = rng.randrange(10 ** 9)
    pick = random.Random(seed)
    caches = [Cache() for _ in jobs]
    if shared:
        caches = [caches[0]] * n
    outs = [None] * n

    def handover():
        me = live[threading.get_ident()]
        with cond:
            turn[0] = pick.choice(sorted(alive))
            cond.notify_all()
            while turn[0] != me:
                if not cond.wait(20):
                    raise TimeoutError("a thread never yielded")

    def work(k):
        live[threading.get_ident()] = k
        try:
            with cond:
                while turn[0] != k:
                    cond.wait(20)
            p = prog.mods[jobs[k][0] - 1]
            outs[k] = p.log_likelihood(jobs[k][1][0], cache=caches[k])
        except Exception as e:  # noqa: BLE001
            outs[k] = e
        finally:
            with cond:
                alive.discard(k)
                if alive:
                    turn[0] = pick.choice(sorted(alive))
                cond.notify_all()

    keep = tc.events
    if shared:  # two threads may both compute before either stores: only values are promised
        tc.events = []
    sched["on"] = handover
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    sched["on"] = None
    tc.events = keep
    for k, (r, (_, rws)) in enumerate(jobs):
        tag = ("shared:" if shared else "threads:") + kd(r)
        if isinstance(outs[k], torch.Tensor):
            llev(r, outs[k].detach(), rws, tag)
        else:
            tv.add("raise", tag, err=repr(outs[k])[:200])


def em_history(nodes, rng, idx):
    """within an EM step and within conditional decoding each module is evaluated once"""
    tv, tc = Trace(f"em{idx}"), Trace(f"emcache{idx}")
    prog = PProg(tv, nodes)
    if not prog.mods:
        return []
    kinds = {id(p): kind(prog.nodes[i]) for i, p in enumerate(prog.mods)}
    Probe.hook = lambda e, probe, cache, out: tc.add(e, "em:" + kinds[id(probe)], c=prog.cids(cache), f="log_likelihood", m=prog.mids(probe),
                                                     **({} if out is None else {"res": prog.vids(out)}))
    vt = var_types(prog.nodes)
    x = torch.tensor([rand_row(rng, vt, max(vt) + 1) for _ in range(3)])
    try:
        expectation_maximization(prog.mods[-1], x, max_steps=1)
    except Exception:  # noqa: BLE001  (C08 judges EM itself)
        pass
    return [tc] if tc.events else []


def main(check):
    q = check.quick()
    check.design("CacheGen", "SPECIFICATION Spec\nCONSTANTS NM = 4 NC = %d MaxLen = %d Exhaustive = TRUE\nVIEW View\n"
                 "INVARIANTS ComputedOnce Transparent OnlyLive\nCHECK_DEADLOCK FALSE\n" % ((1, 5) if q else (2, 5)), timeout=600)
    hs = histories(check, "CacheGen", "NM = 4 NC = 2 MaxLen = 24 Exhaustive = FALSE", 250 if q else 2500, 24, check.seed,
                   invariants=("ComputedOnce", "Transparent", "OnlyLive"))
    api = pmap(replay_api, hs, check.seed)
    ps = corpus(check, 0.5 if q else 3, seed=10) + [p for p in directed_programs(check.rng, not q)
         if sum(len(json.dumps(n.get("w", ""))) for n in p) < 4000]
    both = pmap(replay_circuit, ps, check.seed)
    ems = pmap(em_history, ps, check.seed)
    flat = [t for b in both for t in (b if isinstance(b, list) else [b])]
    emf = [t for b in ems for t in (b if isinstance(b, list) else [b])]
    iscache = lambda t: t.tag.startswith(("cache", "api", "emcache"))
    check.run("CacheTrace", [t for t in api + flat + emf if iscache(t) and t.events])
    check.run("LibTrace", [t for t in flat + emf if not iscache(t) and t.events])
