"""C16: recorded gradient-descent runs against the training protocol."""
from copy import deepcopy
import torch.optim.optimizer as topt
from importer import *
from sampling import *
from c08 import well_conditioned
import c24

from spflow.learn.gradient_descent import train_gradient_descent

SMOOTH = ["bernoulli", "categorical", "normal", "poisson", "exponential", "log_normal"]


class Diverged(Exception):
    """the run has left the range in which its losses can be told from rounding"""


class Loader:
    """yields batches in an order of its own in every pass; tells when a pass starts"""
    def __init__(self, batches, rng, on_pass, form, real):
        self.batches, self.rng, self.on_pass, self.form, self.real = batches, rng, on_pass, form, real

    def __len__(self):
        return len(self.batches)

    def __iter__(self):
        order = list(self.batches)
        self.rng.shuffle(order)
        self.on_pass(order)
        for rows, y in order:
            x = torch.tensor(rows)
            if self.real:      # classification
                yield (x, torch.tensor(y)) if self.form % 2 else [x, torch.tensor(y)]
            else:
                yield [x, (x,), [x], (x, torch.tensor(y))][self.form - 1]


class Recorder:
    def __init__(self, tr, rng, prog, model, idx, root):
        self.tr, self.rng, self.prog, self.m, self.idx, self.root = tr, rng, prog, model, idx, root
        self.opt = None
        vt = var_types(prog.nodes)
        self.vt, self.nv = vt, max(vt) + 1

    def refresh(self):
        """tell the specification the parameters the modules hold now"""
        refresh(self.tr, self.prog)

    def flat(self, grads=None):
        out = []
        for n, p in self.ps:
            x = (p.detach() if grads is None else grads.get(n))
            out += ["nan"] * p.numel() if x is None else nums(x.flatten())
        return out

    def rows(self, n):
        out = []
        for _ in range(60):
            r = rand_row(self.rng, self.vt, self.nv)
            with torch.no_grad():
                ok = float(self.m.log_likelihood(torch.tensor([r])).min()) > -200
                if ok and self.root:
                    ok = float(self.m.log_posterior(torch.tensor([r])).min()) > -200
            if ok:
                out.append(r)
            if len(out) == n:
                return out
        return None

    def batches(self, k):
        out = []
        for _ in range(k):
            n = self.rng.choice([1, 2, 3])
            rows = self.rows(n)
            if rows is None:
                return None
            out.append((rows, [self.rng.randrange(self.K) for _ in rows]))
        return out

    def loss(self, m, batch):
        """the loss of the batch, by its definition"""
        c = self.cfg
        x, y = torch.tensor(batch[0]), torch.tensor(batch[1])
        mean = m.log_likelihood(x).mean()
        if not c["cls"]:
            return 3 - 2 * mean if c["custom"] else -mean
        lp = m.log_posterior(x)
        disc = -lp.mean() if c["custom"] else -lp[torch.arange(len(y)), y].mean()
        return disc - float(c["nllw"]) * mean

    def train(self, h, tag):
        tr, rng, m = self.tr, self.rng, self.m
        cls = h["cls"] and self.root > 0
        self.K = m.root_node.in_shape.channels if cls else 3
        train, val = self.batches(h["nb"]), self.batches(h["nv"])
        if train is None or val is None or not well_conditioned(self.prog, self.idx):
            return False
        self.ps = [(n, p) for n, p in m.named_parameters() if p.requires_grad]
        if not self.ps:
            return False
        lr = rng.choice([0.5, 0.1, 0.01])
        opt, same = None, False
        if h["opt"] == "none":
            optname, mom, base = "adam", 0.0, lr
        elif h["same"] and self.opt is not None:
            opt, optname, mom = self.opt
            base, same = opt.param_groups[0]["lr"], True
        else:
            chosen = self.ps if not h["subset"] else [q for q in self.ps if rng.random() < .6] or self.ps
            mom = rng.choice([0.0, 0.9])
            optname, base = h["opt"], lr
            opt = torch.optim.SGD([p for _, p in chosen], lr=lr, momentum=mom) if h["opt"] == "sgd" else torch.optim.Adam([p for _, p in chosen], lr=lr)
            self.opt = (opt, optname, mom)
        sched, stepped = None, []
        if opt is not None and h["sched"] == "step":
            sched = torch.optim.lr_scheduler.StepLR(opt, h["every"], gamma=0.5)
        elif opt is not None and h["sched"] == "count":
            class Count:
                def step(s, *a):
                    pass
            sched = Count()
        cfg = dict(epochs=h["epochs"], nb=len(train), nv=len(val), hasval=h["hasval"], bcb=h["bcb"], ecb=h["ecb"], sch=sched is not None,
                   cls=cls, custom=h["custom"], nllw=num(rng.choice([1.0, 0.0, 0.25])) if cls else num(1.0), opt=optname, mom=num(mom), lr=num(base),
                   sched=h["sched"] if sched is not None else "default", every=h["every"], m=self.idx, root=self.root, same=same, own=opt is not None)
        self.cfg = cfg
        kw = dict(epochs=h["epochs"])
        if cls:
            kw["is_classification"] = True
            if cfg["nllw"] != "1" or rng.random() < .5:
                kw["nll_weight"] = float(cfg["nllw"])
        if opt is not None:
            kw["optimizer"] = opt
        else:
            kw["lr"] = lr
        if h["x"] % 5 == 0:
            kw["verbose"] = True
        if cfg["custom"]:
            kw["loss_fn"] = (lambda lp, t: -lp.mean()) if cls else (lambda mod, x: 3 - 2 * mod.log_likelihood(x).mean())
        st = {"order": [], "k": -1, "val": None, "v": 0}
        kept = []

        def on_train(order):
            self.refresh()
            st.update(order=order, k=-1, val=None)
            tr.add("iter", tag, md=m.training, par=self.flat())

        def on_val(order):
            self.refresh()
            st.update(val=order, v=0)
            tr.add("viter", tag, par=self.flat())

        def pre(o, a, k):
            st["k"] += 1
            mine = {id(p) for g in o.param_groups for p in g["params"]}
            g = {n: p.grad.detach().clone() for n, p in self.ps if id(p) in mine and p.grad is not None}
            ref = {}
            if st["k"] < len(st["order"]):
                c = deepcopy(m)
                for p in c.parameters():
                    p.grad = None
                with torch.enable_grad():
                    self.loss(c, st["order"][st["k"]]).backward()
                ref = {n: p.grad.detach() for n, p in c.named_parameters() if p.grad is not None and n in g}
            st["ev"] = dict(before=self.flat(), g=self.flat(g), gref=self.flat({n: ref.get(n, torch.zeros_like(x)) for n, x in g.items()}),
                            lr=num(o.param_groups[0]["lr"]))

            if any(not torch.isfinite(x).all() or x.abs().max() > 50 for x in ref.values()):
                raise Diverged

        def post(o, a, k):
            tr.add("step", tag, after=self.flat(), **st["ev"])

        def bcb(loss, n):
            if st["val"] is None:
                rows, y = st["order"][st["k"]] if 0 <= st["k"] < len(st["order"]) else ([], [])
            else:
                rows, y = st["val"][st["v"]] if st["v"] < len(st["val"]) else ([], [])
                st["v"] += 1
            tr.add("bcb", tag, loss=num(loss.item()), n=int(n), rows=nums(rows), targets=y, par=self.flat())
            self.refresh()

        def ecb(losses, epoch):
            kept.append(losses)
            tr.add("ecb", tag, losses=[num(x.item()) for x in losses], epoch=int(epoch), par=self.flat())

        if sched is not None:
            inner = sched.step
            def step(*a, **k):
                tr.add("sched", tag)
                return inner(*a, **k)
            sched.step = step
            kw["scheduler"] = sched
        if h["bcb"]:
            kw["callback_batch"] = bcb
        if h["ecb"]:
            kw["callback_epoch"] = ecb
        if h["hasval"]:
            kw["validation_dataloader"] = Loader(val, random.Random(h["x"]), on_val, h["form"], cls)
        loader = Loader(train, random.Random(h["x"] + 1), on_train, h["form"], cls)
        if h["pre"] == 1:
            m.eval()
        if h["pre"] == 2 and train:
            with torch.no_grad():
                m.log_likelihood(torch.tensor(train[0][0]))
        for p in m.parameters():
            if h["pre"] == 3 and p.requires_grad:   # a stale gradient
                p.grad = torch.ones_like(p)
        self.refresh()
        tr.add("start", tag, cfg=cfg, par=self.flat())
        def guarded():
            try:
                train_gradient_descent(m, loader, **kw)
            except Diverged:
                return
            st["returned"] = True
        handles = [topt.register_optimizer_step_pre_hook(pre), topt.register_optimizer_step_post_hook(post)]
        try:
            ok, _ = tr.attempt(tag, guarded)
        finally:
            for x in handles:
                x.remove()
        ok = ok and "returned" in st
        if ok:
            tr.add("end", tag, md=all(x.training for x in m.modules()), par=self.flat(), kept=[[num(x.item()) for x in q] for q in kept])
        self.refresh()
        return ok

    def malformed(self, h, tag):
        """calls that must be refused before anything is trained"""
        tr, rng, m = self.tr, self.rng, self.m
        x = torch.tensor([rand_row(rng, self.vt, self.nv)])
        y = torch.tensor([0])
        kw = rng.choice([dict(epochs=0), dict(epochs=-1), dict(epochs=-7), dict(), "triple", "cls"])
        before = nums(torch.cat([p.detach().flatten() for p in m.parameters()] or [torch.zeros(0)]))
        if kw == "triple":
            go = lambda: train_gradient_descent(m, [(x, y, y)], epochs=1)
        elif kw == "cls":
            go = (lambda: train_gradient_descent(m, [x], epochs=1, is_classification=True)) if self.root else \
                 (lambda: train_gradient_descent(m, [(x, y)], epochs=1, is_classification=True))
        else:
            go = lambda: train_gradient_descent(m, [x], **kw)
        tr.must_raise(tag + ":malformed", go)
        tr.add("eq", tag + ":malformed", clause="parameters_changed", a=before, b=nums(torch.cat([p.detach().flatten() for p in m.parameters()] or [torch.zeros(0)])))


def one(item, rng, idx):
    src, hist = item
    torch.manual_seed(rng.randrange(10 ** 6))
    np.random.seed(rng.randrange(10 ** 6))
    if src[0] == "class":
        j = src[1]
        tr = Trace(f"gd{idx}:{j['kind']}")
        try:
            p, f, mods = c24.build(j, rng)
            m = f()
        except Exception:  # noqa: BLE001  (judged by C24)
            return tr
        if sum(p.numel() for p in m.parameters()) > 120:
            return tr
        if j["kind"] != "naive":
            c24.sharpen(m, rng)
        prog, i = import_module(tr, m)
        r = Recorder(tr, rng, prog, m, i, i if j["roots"] > 1 else 0)
        tag = "gd:" + j["kind"]
    else:
        tr = Trace(f"gd{idx}:circuit")
        nodes = src[1]
        prog = Prog(tr, nodes)
        if not prog.mods or any(m is None for m in prog.mods):
            return tr
        good = [i for i in range(1, len(nodes) + 1) if not any(tainted(nodes, nodes[k - 1]) for k in below(nodes, i) | {i})
                and sum(p.numel() for p in prog.mods[i - 1].parameters()) in range(1, 80)]
        if not good:
            return tr
        i = max(good[-3:], key=lambda k: len(below(nodes, k)))
        m = prog.mods[i - 1]
        r = Recorder(tr, rng, prog, m, i, 0)
        tag = "gd:" + kind(nodes[i - 1])
    for h in hist:
        if h["bad"] == 1:
            r.malformed(h, tag)
        elif not r.train(h, tag):
            break
    return tr


def main(check):
    check.design("TrainerMC", "SPECIFICATION Spec\nCONSTANTS\n MaxE = 12\n MaxB = 2\nINVARIANTS Exact Bounded NoStuck\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n")
    q = check.quick()
    n = 60 if q else 400
    js = histories(check, "BuildGen", 'Kinds = {"rat", "einet", "naive", "naive"}', 3 * n, 3, check.seed + 16)
    js = [("class", j) for j in js if j["z"] == 0][:n]
    ps = [("circuit", p) for p in corpus(check, 1 if q else 4, disc=30, mixed=30, grid=0, splits=0, conv=False, seed=16, contdists=SMOOTH)]
    items = js + ps
    hs = histories(check, "TrainGen", f"Len_ = {2 if q else 4}\n Long = {'FALSE' if q else 'TRUE'}", len(items), 10, check.seed)
    check.run("TrainTrace", pmap(one, list(zip(items, hs)), check.seed), cfg_text="SPECIFICATION TrSpec\nCHECK_DEADLOCK FALSE\n")
