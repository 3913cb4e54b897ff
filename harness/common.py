"""Shared machinery: environment, trace recording, TLC runs, verdicts, evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, re, math, random, traceback, atexit, signal, multiprocessing

for _k, _v in dict(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="").items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPFLOW_REPO", "/repo")
sys.path.insert(0, REPO)

TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="spv_")
        if not os.environ.get("SPV_KEEP"):
            atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def java_classes():
    """Compile java/RealNum.java (TLC operator override); reuse the setup build when it is current."""
    src = os.path.join(VERIF, "java", "RealNum.java")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    for base in (os.path.join(VERIF, "build"), tmpdir()):
        d = os.path.join(base, "java-" + h)
        if os.path.exists(os.path.join(d, "RealNum.class")):
            return d
    d = os.path.join(tmpdir(), "java-" + h)
    os.makedirs(d, exist_ok=True)
    subprocess.run(["javac", "-cp", TLA, "-d", d, src], check=True)
    return d


class MachineryError(Exception):
    pass


def tlc(module, cfg_text=None, cfg=None, workers=8, extra=(), timeout=800, mem="6g", env=None, check=True):
    """Run TLC on spec/<module>.tla in a scratch copy; returns (stdout, stats)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=tmpdir())
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    c = os.path.join(d, "run.cfg")
    if cfg_text is None:
        cfg_text = open(os.path.join(VERIF, "spec", cfg or module + ".cfg")).read()
    open(c, "w").write(cfg_text)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp",
           java_classes() + ":" + TLA + ":" + COMM, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"), "-workers", str(workers),
           "-config", c, *extra, os.path.join(d, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise MachineryError(f"TLC timeout on {module}") from x
    out = p.stdout + p.stderr
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    m2 = re.findall(r"number of states generated: (\d+)", out)
    st = {"states": int(m[-1][1]) if m else int(m2[-1]) if m2 else 0,
          "transitions": int(m[-1][0]) if m else int(m2[-1]) if m2 else 0, "rc": p.returncode, "dir": d}
    if check and ("Error:" in out or p.returncode != 0):
        i = out.find("Error:")
        raise MachineryError(f"TLC failed on {module} (rc={p.returncode}):\n" + out[max(0, i - 200):i + 3000])
    if not os.environ.get("SPV_KEEP"):
        shutil.rmtree(d, True)
    return out, st


# ---------------------------------------------------------------- numbers
def num(x):
    x = float(x)
    if x != x:
        return "nan"
    if x == math.inf:
        return "inf"
    if x == -math.inf:
        return "-inf"
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return repr(x)


def nums(a):
    """nested lists / tensors -> nested lists of number tokens"""
    if hasattr(a, "detach"):
        a = a.detach().cpu().tolist()
    elif hasattr(a, "tolist"):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [nums(x) for x in a]
    return num(a)


# ---------------------------------------------------------------- traces
class Trace:
    """One recorded history of library calls (a list of events)."""

    def __init__(self, tag):
        self.tag = tag
        self.events = []

    def add(self, e, tag, **kw):
        d = {"e": e, "tag": tag}
        d.update(kw)
        self.events.append(d)
        return d

    def attempt(self, tag, fn):
        """Run a call that must succeed; an exception is recorded as a forbidden event."""
        try:
            return True, fn()
        except Exception as x:  # noqa: BLE001
            self.add("raise", tag, err=f"{type(x).__name__}: {x}"[:200])
            if os.environ.get("SPV_TB"):
                traceback.print_exc()
            return False, None

    def must_raise(self, tag, fn):
        """Record whether a call that must be rejected was rejected."""
        try:
            fn()
            raised, err = False, ""
        except Exception as x:  # noqa: BLE001
            raised, err = True, f"{type(x).__name__}: {x}"[:200]
        self.add("reject", tag, raised=raised, err=err)
        return raised


def write_traces(path, traces):
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t.events) + "\n")


def validate(module, traces, cfg_text=None, timeout=800, constants="", workers=8, mem="8g"):
    """Validate traces against spec/<module>.tla.  Returns (fails, stats) with
    fails = [(trace, event, clause)].  Every event is judged; the verdict is total."""
    traces = [t for t in traces if t.events]
    if not traces:
        raise MachineryError("no traces to validate")
    path = os.path.join(tmpdir(), f"traces_{module}_{time.time_ns()}.ndjson")
    write_traces(path, traces)
    total = sum(len(t.events) for t in traces)
    cfg = cfg_text or ("SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + constants)
    t0 = time.time()
    out, st = tlc(module, cfg_text=cfg, timeout=timeout, env={"TRACE": path}, workers=workers, mem=mem)
    done = len(set(re.findall(r"DONE\|(\d+)", out)))
    if done != len(traces):
        raise MachineryError(f"{module}: only {done} of {len(traces)} traces were consumed\n" + out[-2000:])
    fails = []
    for m in sorted(set(re.findall(r'FAIL\|(\d+)\|(\d+)\|([^"\n]*)', out)), key=lambda q: (int(q[0]), int(q[1]), q[2])):
        t = traces[int(m[0]) - 1]
        fails.append((t, t.events[int(m[1]) - 1], m[2]))
    st["events"] = total
    st["tlc_s"] = round(time.time() - t0, 1)
    st["traces"] = len(traces)
    if not os.environ.get("SPV_KEEP"):
        os.unlink(path)
    return fails, st


def crash_trace(e):
    """An exception no driver expected is itself an observation: the code raised it, or answered with
    something no correct answer looks like."""
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if f.filename.startswith(REPO + os.sep)] or list(tb)
    if isinstance(e, (MemoryError, MachineryError)):
        return None
    t = Trace("crash")
    f = where[-1]
    t.add("raise", "crash:" + os.path.basename(f.filename), err=f"{type(e).__name__}: {e}"[:200], where=f"{f.filename}:{f.lineno}")
    return t


# ---------------------------------------------------------------- parallel replay
_job = None


def _work(arg):
    fn, seed, items = _job
    k = arg
    import torch
    torch.manual_seed(seed * 1000003 + k)
    torch.set_num_threads(1)
    rng = random.Random(seed * 1000003 + k)

    def late(*_):
        raise TimeoutError("the replayed call did not return")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600)
    try:
        return fn(items[k], rng, k)
    except Exception as e:  # noqa: BLE001
        t = crash_trace(e)
        if t is None:
            raise MachineryError("driver failed:\n" + traceback.format_exc()) from None
        sys.stderr.write(traceback.format_exc())
        return t
    finally:
        signal.alarm(0)


def pmap(fn, items, seed, procs=8):
    """[fn(item, rng, index)] in forked workers; every item has its own deterministic random streams."""
    global _job
    items = list(items)
    _job = (fn, seed, items)
    if procs <= 1 or os.environ.get("SPV_SERIAL"):
        return [_work(k) for k in range(len(items))]
    with multiprocessing.get_context("fork").Pool(min(procs, max(1, len(items)))) as pool:
        return list(pool.map(_work, range(len(items)), chunksize=1))


# ---------------------------------------------------------------- verdicts
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


class Check:
    """Collects what one property check explored and turns it into verdict + evidence."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.fails = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events": 0, "runs": []}
        self.seed = SEED
        self.rng = random.Random(SEED * 7919 + int(prop[1:]))
        self.level = "model_checking"

    def quick(self):
        return self.tier == "quick"

    def run(self, module, traces, **kw):
        fails, st = validate(module, traces, **kw)
        self.account(module, st)
        self.cov["traces_validated_against_impl"] += st["traces"]
        self.cov["events"] += st["events"]
        for t in traces[:3]:
            if t.events and len(self.cov["samples"]) < 5:
                self.cov["samples"].append({"trace": t.tag, "first_event": json.dumps(t.events[0])[:300],
                                            "events": len(t.events)})
        self.fails += fails
        return fails

    def design(self, module, cfg_text, **kw):
        """Exhaustive check of a specification's own properties (independent of the code)."""
        t0 = time.time()
        out, st = tlc(module, cfg_text=cfg_text, **kw)
        st["tlc_s"] = round(time.time() - t0, 1)
        self.account(module, st)

    def account(self, name, st):
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov["runs"].append({k: st[k] for k in ("states", "transitions", "events", "traces", "tlc_s") if k in st} | {"spec": name})

    def finish(self):
        known = {(k["property"], k["key"]): k for k in load_known()["known"]}
        seen, viol = {}, []
        for t, ev, clause in self.fails:
            key = f"{ev['tag']}|{clause}"
            if (self.prop, key) in known:
                seen[key] = known[(self.prop, key)]
            else:
                viol.append((t, ev, clause, key))
        for (prop, key), k in known.items():
            if prop == self.prop:
                print(f"KNOWN-FINDING: property={self.prop} {key}: {k['what']}"
                      + ("" if key in seen else " (not exercised by this run)"))
        rp = None
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{self.prop}-{self.tier}.json")
            if os.environ.get("SPV_ALL"):
                json.dump([[k, ev] for _, ev, _, k in viol], open(os.environ["SPV_ALL"], "w"))
            groups = {}
            for t, ev, clause, key in viol:
                groups.setdefault(key, []).append((t, ev))
            json.dump([{"key": k, "count": len(v), "trace": v[0][0].tag, "event": v[0][1],
                        "history": v[0][0].events} for k, v in list(groups.items())[:25]], open(rp, "w"), indent=1)
            for k, v in list(groups.items())[:25]:
                d = {a: b for a, b in v[0][1].items() if a not in ("tag",)}
                print(f"  violated: {k} (x{len(v)}) e.g. {json.dumps(d)[:300]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2)}
        ev["coverage"]["violations"] = len(viol)
        ev["coverage"]["known_findings_seen"] = sorted(seen)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w"), indent=1)
        print(f"{self.prop} {self.tier}: {self.cov['traces_validated_against_impl']} traces, "
              f"{self.cov['events']} events, {self.cov['states']} states, {ev['wall_s']} s, "
              f"{len(viol)} violations, {len(seen)} known")
        return 1 if viol else 0


def histories(check, module, constants, num, depth, seed, keep=None, invariants=(), view=None, mark="HIST"):
    """Behaviours of a generator specification (TLC simulation), one emitted history each."""
    cfg = "SPECIFICATION Spec\nCONSTANTS " + constants + "\nINVARIANTS " + " ".join((*invariants, "Emit")) + "\nCHECK_DEADLOCK FALSE\n"
    out, st = tlc(module, cfg_text=cfg, workers=1, extra=["-seed", str(seed), "-simulate", f"num={num}", "-depth", str(depth + 2)])
    check.account(module, st)
    hs, seen = [], set()
    for m in re.findall(r'"%s (.*)"' % mark, out):
        if m not in seen:
            seen.add(m)
            hs.append(json.loads(json.loads('"' + m + '"')))
    random.Random(seed).shuffle(hs)
    return hs[:keep or num]
