"""Ready-made architectures as circuits of the specification, driven through the model's own methods."""
from importer import *
import c24


def jobs(check, n, kinds='{"rat", "einet", "conv", "naive"}', seed=0):
    js = histories(check, "BuildGen", f"Kinds = {kinds}", 2 * n, 3, check.seed + seed)
    return [j for j in js if j["z"] == 0][:n]


def build(j, rng, name):
    """(trace, circuit, index of the model's node); None if the model cannot be built (judged by C24)"""
    tr = Trace(f"{name}:{j['kind']}")
    torch.manual_seed(rng.randrange(10 ** 6))
    np.random.seed(rng.randrange(10 ** 6))
    try:
        p, f, mods = c24.build(j, rng)
        m = f()
    except Exception:  # noqa: BLE001
        return None
    if j["kind"] != "naive":
        c24.sharpen(m, rng)
    prog, i = import_module(tr, m)
    prog.mods[i - 1] = m   # calls go through the model, parameters are read off the modules below
    return tr, prog, i
