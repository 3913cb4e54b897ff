"""Ready-made models of every architecture in the library: name -> (builder(rng), data sets, capabilities)."""
from importer import *
from spflow.modules.sums.signed_sum import SignedSum
from spflow.modules.sos.socs import SOCS
from spflow.modules.leaves.piecewise_linear import PiecewiseLinear
from spflow.meta.region_graph import RegionGraph, Region
from spflow.learn.learn_spn import learn_spn
from spflow.learn.prometheus import learn_prometheus
from spflow.learn.cnet import learn_cnet
from spflow.learn.build_socs import build_socs
from spflow.zoo.hclt.learn import learn_hclt_binary, learn_hclt_categorical
from spflow.zoo.sos.models import SOSModel, ExpSOSModel
from spflow.zoo.sos.signed_categorical import SignedCategorical


def bern(n, c=2, r=1):
    return L.Bernoulli(Scope(list(range(n))), out_channels=c, num_repetitions=r)


def norm_(n, c=2, r=1):
    return L.Normal(Scope(list(range(n))), out_channels=c, num_repetitions=r)


def bits(m, rng, n=None, k=2):
    n = n or max(m.scope.query) + 1
    out = [torch.tensor([[float(rng.randint(0, k - 1)) for _ in range(n)] for _ in range(b)]) for b in (1, 4)]
    return out


def bits_nan(m, rng, n=None, k=2):
    out = bits(m, rng, n, k)
    x = out[1].clone()
    for i in range(x.shape[0]):
        x[i, rng.randrange(x.shape[1])] = math.nan
    return out + [x]


def reals(m, rng):
    n = max(m.scope.query) + 1
    return [torch.tensor([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(b)]) for b in (1, 4)]


def seeded(f):
    def g(rng):
        torch.manual_seed(rng.randrange(10 ** 6))
        np.random.seed(rng.randrange(10 ** 6))
        return f(rng)
    return g


def table(rng, n, rows, k=2):
    base = [[rng.randint(0, k - 1) for _ in range(n)] for _ in range(4)]
    return torch.tensor([[float(v if rng.random() < .8 else rng.randint(0, k - 1)) for v in base[rng.randrange(4)]] for _ in range(rows)])




def signed(rng):
    return SignedSum(inputs=Product([L.Categorical(Scope([i]), out_channels=2, K=2) for i in range(2)]), out_channels=2)


def socs(rng):
    comp = lambda: SignedSum(inputs=Product(L.Categorical(Scope([0, 1]), out_channels=2, K=2)), out_channels=1)
    return SOCS([comp() for _ in range(2)])


ALL = {"sample", "soft", "sd", "fresh"}
GALLERY = {
    "rat": (seeded(lambda r: RatSPN([bern(4, 2, 2)], 1, 2, 2, 2)), bits_nan, ALL),
    "rat_classes": (seeded(lambda r: RatSPN([bern(5, 2, 2)], 3, 2, 2, 2, outer_product=True)), bits_nan, ALL),
    "einet_einsum": (seeded(lambda r: Einet([norm_(4, 3, 2)], 2, 3, 3, 2, 2, "einsum")), reals, ALL),
    "einet_linsum": (seeded(lambda r: Einet([bern(4, 3, 2)], 1, 3, 3, 2, 2, "linsum", "bottom-up")), bits_nan, ALL),
    "einet_bu": (seeded(lambda r: Einet([bern(4, 3, 1)], 2, 3, 3, 1, 1, "einsum", "bottom-up")), bits_nan, ALL),
    "conv": (seeded(lambda r: ConvPc(bern(16), 4, 4, 2, 1, use_sum_conv=True)), bits_nan, ALL),
    "conv_sum": (seeded(lambda r: ConvPc(bern(16), 4, 4, 2, 2)), bits_nan, ALL),
    "naive": (seeded(lambda r: NaiveBayes([bern(3, 3), L.Normal(Scope([3]), out_channels=3)], num_classes=3, learnable_prior=True)), bits_nan, ALL),
    "socs": (seeded(socs), bits, {"sd", "fresh"}),
    "sos": (seeded(lambda r: SOSModel(3, num_input_units=2, num_sum_units=2, input_layer="categorical", input_layer_kwargs={"num_categories": 2}, num_squares=2, seed=7)), bits, {"sd", "fresh"}),
    "sos_complex": (seeded(lambda r: SOSModel(3, num_input_units=2, num_sum_units=2, input_layer="embedding", input_layer_kwargs={"num_states": 2}, num_squares=1, complex=True, seed=7)), bits, {"sd", "fresh"}),
    "expsos": (seeded(lambda r: ExpSOSModel(3, num_input_units=2, num_sum_units=2, input_layer="categorical", input_layer_kwargs={"num_categories": 2}, seed=7)), bits, {"sd", "fresh"}),
    "hclt": (seeded(lambda r: learn_hclt_binary(table(r, 4, 60), num_hidden_cats=2)), bits_nan, {"sample", "soft", "sd"}),
    "hclt_cat": (seeded(lambda r: learn_hclt_categorical(table(r, 3, 60, 3), num_hidden_cats=2, num_cats=3)), lambda m, r: bits_nan(m, r, None, 3), {"sample", "soft", "sd"}),
    "learnspn": (seeded(lambda r: learn_spn(table(r, 4, 80) + 0.1 * torch.randn(80, 4), norm_(4, 1), min_instances_slice=20)), reals, {"sample", "soft", "sd"}),
    "prometheus": (seeded(lambda r: learn_prometheus(table(r, 4, 80) + 0.1 * torch.randn(80, 4), norm_(4, 1), min_instances_slice=20)), reals, {"sample", "soft", "sd"}),
    "cnet": (seeded(lambda r: learn_cnet(table(r, 3, 60), cardinalities=2)), bits_nan, {"sample", "soft", "sd"}),
    "joint": (seeded(lambda r: JointLogLikelihood(CLTree(Scope([0, 1, 2]), out_channels=2, K=2, parents=torch.tensor([-1, 0, 1])))), bits_nan, ALL - {"soft"}),
}
