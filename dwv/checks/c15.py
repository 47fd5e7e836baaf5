"""Invalid requests raise, valid ones are accepted."""

import torch
import numpy as np

from .. import cases, ref, rel
from ..harness import Skip

ID = "C15"
RULE = (
    "each random valid problem must be accepted; the same problem with one requirement violated (several dozen kinds of corruption "
    "of models, spacings, times, options, amplitudes, locations, wavefields, areas, storage and callbacks) must raise an ordinary "
    "exception before the first time step (monitored by a callback and by the outputs), in the native and the eager backends; "
    "unusual but valid spellings of the same request must give the same numbers; non-trivial: a corruption that applied"
)
N = {"quick": 9000, "thorough": 150000}
CAP = {"quick": 300, "thorough": 2400}
NEED = {"rejected": 2500, "accepted_variants": 1000, "api": 2000}
NO_RELEASE = True


def gen(rng, i, tier):
    if i % 40 == 39:
        return dict(what="api", pick=rng.randrange(1 << 16))
    c = cases.gen_case(rng, mgsi=rng.choice([1, 2]), wide=False, ignore=rng.choice([0.0, 0.0, 0.4]),
                       prop=cases.PROPS[i % 4], nt=rng.randint(2, 8), zero_cells=0, void=False, loc_dtype="long", step_ratio=rng.choice([1, 2]))
    more = ["location_half_point"] * 4 + ["component_of_other_dimension", "amplitude_times", "nt_type"]
    kinds = sorted(BAD) + more if i % 4 != 3 or rng.random() < 0.5 else sorted(GOOD)
    if rng.random() < 0.3:
        kinds = sorted(GOOD)
    c["what"] = rng.choice(kinds)
    c["pick"] = rng.randrange(1 << 16)
    c["grad"] = rng.random() < 0.4
    c["eager"] = rng.random() < 0.15
    c["module"] = rng.random() < 0.15
    return c


class NA(Exception):
    """This corruption does not apply to the problem."""


BAD, GOOD = {}, {}


def bad(f):
    BAD[f.__name__] = f
    return f


def good(f):
    GOOD[f.__name__] = f
    return f


class P:
    """The problem being corrupted."""

    def __init__(self, c, prop, kw):
        self.c, self.prop, self.kw, self.nd = c, prop, dict(kw), c["ndim"]
        self.r = c["pick"]
        self.models = ref.model_names(prop)
        self.wfs = [k for k in kw if k in ref.wavefield_names(prop, self.nd)]
        self.locs = [k for k in kw if "locations" in k]
        self.srcs = [k for k in self.locs if k.startswith("source")]
        self.recs = [k for k in self.locs if not k.startswith("source")]
        self.amps = [k for k in kw if "amplitudes" in k]
        self.dtype = kw[self.models[0]].dtype

    def one(self, xs):
        if not xs:
            raise NA
        return xs[self.r % len(xs)]

    def set(self, k, v):
        self.kw[k] = v

    def pick(self, vals):
        return vals[(self.r // 7) % len(vals)]

    def active(self, k):
        """Index of an active point of location tensor k."""
        a = ref.active(self.kw[k]).nonzero()
        if len(a) == 0:
            raise NA
        return a[self.r % len(a)].tolist()


NOTNUM = ["abc", "1,2", object(), [1.0, "a"], {}]


# ------------------------------------------------------------ models
@bad
def model_not_tensor(p):
    p.set(p.one(p.models), p.pick([None, 1.0, [[1.0, 2.0]], np.ones(p.c["shape"])]))


@bad
def model_extra_dim(p):
    k = p.one(p.models)
    m = p.kw[k]
    p.set(k, m[None] if m.ndim == p.nd + 1 else m[None, None])


@bad
def model_missing_dim(p):
    k = p.one(p.models)
    m = p.kw[k]
    p.set(k, m.reshape(-1) if p.nd == 3 and m.ndim == 3 else (m[0] if m.ndim == p.nd else m[0, 0]))


@bad
def model_batch(p):
    k = p.one(p.models)
    m = p.kw[k]
    m = m if m.ndim == p.nd else m[0]
    n = p.c["n_shots"] + 1
    p.set(k, m.expand(n, *m.shape).contiguous())


@bad
def model_shape(p):
    if len(p.models) == 1:
        raise NA
    k = p.models[1 + p.r % (len(p.models) - 1)]
    m = p.kw[k]
    d = m.ndim - 1 - p.pick(range(p.nd))
    p.set(k, torch.cat([m, m.narrow(d, 0, 1)], d))


@bad
def model_dtype(p):
    if len(p.models) == 1:
        raise NA
    k = p.one(p.models)
    p.set(k, p.kw[k].to(torch.float32 if p.dtype == torch.float64 else torch.float64))


@bad
def unsupported_dtype(p):
    p.c["eager"] = False
    t = p.pick([torch.float16, torch.bfloat16, torch.complex64, torch.int64])
    for k in cases.float_inputs(p.kw):
        p.kw[k] = p.kw[k].to(t)
    p.kw["max_vel"] = 1.0


@bad
def model_device(p):
    if len(p.models) == 1:
        raise NA
    k = p.models[1 + p.r % (len(p.models) - 1)]
    p.set(k, p.kw[k].to("meta"))


# ------------------------------------------------------------ numbers
@bad
def grid_spacing(p):
    h = p.kw["grid_spacing"]
    h = h if isinstance(h, list) else [h] * p.nd
    h = list(h)
    d = p.r % p.nd
    what = p.pick(["zero", "negative", "long", "short", "text", "none", "nested"])
    if what == "zero":
        h[d] = 0.0
    elif what == "negative":
        h[d] = -h[d]
    elif what == "long":
        h = h + [h[0]]
    elif what == "short":
        if p.nd == 1:
            raise NA
        h = h[:-1]
    elif what == "text":
        h[d] = "a"
    elif what == "none":
        h = None
    else:
        h[d] = [h[d], h[d]]
    p.set("grid_spacing", h)


@bad
def dt(p):
    p.set("dt", p.pick([0.0, -0.0, 0, "abc", None, torch.tensor([0.001, 0.002]), [0.001]]))


@bad
def accuracy(p):
    p.set("accuracy", p.pick([0, 1, 3, 5, 7, 9, 10, 12, -2, -4, 2.0, "4", None, [4]]))


@bad
def pml_width(p):
    w = list(p.kw["pml_width"])
    d = p.r % len(w)
    what = p.pick(["negative", "long", "short", "fraction", "text", "none", "allneg", "half"])
    if what == "negative":
        w[d] = -1 - (p.r % 3)
    elif what == "allneg":
        w = -1
    elif what == "half":
        w = [2.5, 0.5][p.r % 2]
    elif what == "long":
        w = w + [2]
    elif what == "short":
        w = w[:-1]
    elif what == "fraction":
        w[d] = w[d] + 0.5
    elif what == "text":
        w[d] = "a"
    else:
        w = None
    p.set("pml_width", w)


@bad
def pml_freq(p):
    p.set("pml_freq", p.pick([-1.0, -1e-6, "x", [1.0, 2.0], object()]))


@bad
def max_vel(p):
    p.set("max_vel", p.pick([0.0, 0, "x", [1.0, 2.0], object()]))


@bad
def fractions(p):
    p.set(p.pick(["freq_taper_frac", "time_pad_frac"]), [-0.1, 1.1, -1e-9, 1 + 1e-9, float("nan"), "x", None, [0.1, 0.2], 5][p.r % 9])


@bad
def sampling_interval(p):
    p.set("model_gradient_sampling_interval", p.pick([-1, -2, 1.0, "1", None, [1]]))


@bad
def nt_missing(p):
    for k in p.amps + p.srcs:
        del p.kw[k]
    p.kw.pop("nt", None)
    if not p.wfs and not p.recs:
        raise NA


@bad
def nt_conflict(p):
    if not p.amps:
        raise NA
    p.set("nt", p.c["nt"] + p.pick([-1, 1, 5]))


@bad
def nt_type(p):
    if p.amps:
        raise NA
    p.set("nt", p.pick([-1, -5, 3.0, "3", [3]]))


# ------------------------------------------------------------ amplitudes
@bad
def amplitude_without_location(p):
    k = p.one(p.amps)
    del p.kw[k.replace("amplitudes", "locations")]


@bad
def location_without_amplitude(p):
    k = p.one(p.amps)
    del p.kw[k]
    p.kw["nt"] = p.c["nt"]


@bad
def amplitude_count(p):
    k = p.one(p.amps)
    a = p.kw[k]
    p.set(k, torch.cat([a, a[:, :1]], 1) if p.pick([0, 1]) or a.shape[1] == 1 else a[:, 1:])


@bad
def amplitude_batch(p):
    k = p.one(p.amps)
    a = p.kw[k]
    p.set(k, torch.cat([a, a[:1]], 0))


@bad
def amplitude_dims(p):
    k = p.one(p.amps)
    p.set(k, p.pick([lambda a: a[0], lambda a: a[None], lambda a: a[..., 0], lambda a: a[..., None]])(p.kw[k]))


@bad
def amplitude_dtype(p):
    k = p.one(p.amps)
    p.set(k, p.kw[k].to(p.pick([torch.float32 if p.dtype == torch.float64 else torch.float64, torch.float16, torch.int64])))


@bad
def amplitude_type(p):
    k = p.one(p.amps)
    p.set(k, p.pick([p.kw[k].tolist(), p.kw[k].detach().numpy(), 1.0]))


@bad
def amplitude_times(p):
    if len(p.amps) < 2:
        raise NA
    k = p.one(p.amps)
    p.set(k, torch.cat([p.kw[k], p.kw[k][..., :1]], -1))


@bad
def amplitude_device(p):
    k = p.one(p.amps)
    p.set(k, p.kw[k].to("meta"))


# ------------------------------------------------------------ locations
@bad
def location_negative(p):
    k = p.one(p.locs)
    s, i = p.active(k)
    l = p.kw[k].clone()
    l[s, i, p.pick(range(p.nd))] = [-1, -2, -(1 << 31) + 1, -(1 << 40)][p.r % 4]
    p.set(k, l)


@bad
def location_too_large(p):
    k = p.one(p.locs)
    s, i = p.active(k)
    l = p.kw[k].clone()
    d = p.pick(range(p.nd))
    n = p.c["shape"][d]
    l[s, i, d] = [n, n + 1, n + 7, 1 << 31, 1 << 40][p.r % 5]
    p.set(k, l)


@bad
def location_half_point(p):
    """The last half-grid row is not part of the staggered domain."""
    if p.prop not in ("acoustic", "elastic") or p.c["extract"] != "none":
        raise NA
    ks = [k for k in p.locs if k.rsplit("_", 1)[1] in "xyz"]
    k = p.one(ks)
    d = ref.dims_of(p.nd).index(k.rsplit("_", 1)[1])
    if p.c["pml"][2 * d + 1] != 0:
        raise NA
    s, i = p.active(k)
    l = p.kw[k].clone()
    l[s, i, d] = p.c["shape"][d] - 1
    p.set(k, l)


@bad
def location_duplicate(p):
    k = p.one(p.locs)
    s, i = p.active(k)
    l = p.kw[k]
    p.set(k, torch.cat([l, l[:, i : i + 1]], 1))
    a = k.replace("locations", "amplitudes")
    if a in p.kw:
        p.set(a, torch.cat([p.kw[a], p.kw[a][:, i : i + 1]], 1))


@bad
def location_fraction(p):
    k = p.one(p.locs)
    s, i = p.active(k)
    d = p.pick(range(p.nd))
    l = p.kw[k].to(torch.float64)
    x = [0.5, 0.3, 0.15][p.r % 3]
    l[s, i, d] += x if l[s, i, d] == 0 else -x
    p.set(k, l)


@bad
def location_nan(p):
    k = p.one(p.locs)
    s, i = p.active(k)
    l = p.kw[k].to(torch.float64)
    l[s, i, p.pick(range(p.nd))] = [float("nan"), float("inf"), -float("inf")][p.r % 3]
    p.set(k, l)


@bad
def location_partly_ignored(p):
    if p.nd == 1:
        raise NA
    k = p.one(p.locs)
    s, i = p.active(k)
    l = p.kw[k].clone()
    l[s, i, p.pick(range(p.nd))] = ref.IGNORE
    p.set(k, l)


@bad
def location_dims(p):
    k = p.one(p.locs)
    p.set(k, p.pick([lambda a: a[0], lambda a: a[None], lambda a: a[..., 0]])(p.kw[k]))


@bad
def location_coordinates(p):
    k = p.one(p.locs)
    l = p.kw[k]
    if len(p.locs) == 1 and not p.wfs:
        # alone, it would declare another number of dimensions: match none
        p.set(k, torch.cat([l] * 4, -1))
    else:
        p.set(k, torch.cat([l, l[..., :1]], -1) if p.pick([0, 1]) or p.nd == 1 else l[..., 1:])


@bad
def location_batch(p):
    if len(p.locs) + len(p.wfs) + len(p.amps) < 2:
        raise NA
    k = p.one(p.locs)
    l = p.kw[k]
    p.set(k, torch.cat([l, l[:1]], 0))


@bad
def location_type(p):
    k = p.one(p.locs)
    p.set(k, p.pick([p.kw[k].tolist(), p.kw[k].detach().numpy(), 3]))


# ------------------------------------------------------------ wavefields
@bad
def wavefield_shape(p):
    k = p.one(p.wfs)
    w = p.kw[k]
    if len(p.wfs) < 2 and p.c["extract"] == "none" and not p.locs:
        raise NA
    d = 1 + p.pick(range(p.nd))
    big = torch.cat([w, w.narrow(d, 0, 1)], d)
    if len(p.wfs) == 1 or p.r % 2 == 0:
        # larger than the model can fill
        n = p.c["shape"][d - 1] + p.c["pml"][2 * d - 2] + p.c["pml"][2 * d - 1] + 1
        big = torch.cat([w] * (n // w.shape[d] + 1), d).narrow(d, 0, n)
    p.set(k, big.contiguous())


@bad
def wavefield_batch(p):
    if len(p.locs) + len(p.wfs) < 2:
        raise NA
    k = p.one(p.wfs)
    p.set(k, torch.cat([p.kw[k], p.kw[k][:1]], 0))


@bad
def wavefield_dtype(p):
    k = p.one(p.wfs)
    p.set(k, p.kw[k].to(torch.float32 if p.dtype == torch.float64 else torch.float64))


@bad
def wavefield_dims(p):
    if len(p.locs) + len(p.wfs) < 2:
        raise NA
    k = p.one(p.wfs)
    p.set(k, p.pick([lambda a: a[0], lambda a: a[None], lambda a: a[..., None]])(p.kw[k]))


@bad
def wavefield_type(p):
    k = p.one(p.wfs)
    p.set(k, p.pick([p.kw[k].tolist(), p.kw[k].detach().numpy(), 1.0]))


@bad
def wavefield_other_dimension(p):
    if p.nd == 3:
        raise NA
    names = [k for k in ref.wavefield_names(p.prop, 3) if "z" in k.replace("zeta", "")]
    k = names[p.r % len(names)]
    sh = [s + p.c["pml"][2 * d] + p.c["pml"][2 * d + 1] for d, s in enumerate(p.c["shape"])]
    p.set(k, torch.zeros(p.c["n_shots"], *sh, dtype=p.dtype))


# ------------------------------------------------------------ area
@bad
def pad_and_origin(p):
    p.set("survey_pad", 3)
    p.set("origin", [0] * p.nd)


@bad
def survey_pad(p):
    p.kw.pop("origin", None)
    n = 2 * p.nd
    for k in p.wfs:
        del p.kw[k]
    if not p.locs:
        raise NA
    p.set("survey_pad", p.pick([-1, [1] * (n + 1), [1] * (n - 1), [1] * (n - 1) + [-1], [1.5] * n, ["a"] * n, [1] * (n - 1) + ["1"]]))


@bad
def origin(p):
    if not p.wfs:
        raise NA
    p.kw.pop("survey_pad", None)
    p.set("origin", p.pick([[-1] + [0] * (p.nd - 1), [0] * (p.nd + 1), [0.0] * p.nd, [1000] * p.nd, ["0"] * p.nd]))


# ------------------------------------------------------------ options
@bad
def callback_frequency(p):
    p.set("callback_frequency", p.pick([0, -1, 1.5, "1", None]))


@bad
def storage_mode(p):
    p.set("storage_mode", p.pick(["gpu", "", "devic", "host", "memory", 1, None]))


@bad
def backend(p):
    p.set("python_backend", p.pick(["native", "c", "eagre", 1.5, ["eager"]]))


@bad
def python_backend_options(p):
    """What the Python backend does not offer."""
    p.set("python_backend", p.pick([True, "eager"]))
    k, v = [("backward_callback", lambda s: None), ("storage_mode", "cpu"), ("storage_mode", "disk"), ("storage_mode", "none"), ("storage_compression", True)][p.r % 5]
    p.set(k, v)


@bad
def component_of_other_dimension(p):
    """Locations of a component that the problem does not have."""
    if p.prop not in ("acoustic", "elastic") or p.nd == 3:
        raise NA
    d = p.pick(["z", "y"] if p.nd == 1 else ["z"])
    if p.r % 2 and p.amps:
        k = p.one(p.amps)
        p.set(f"source_amplitudes_{d}", p.kw[k])
        p.set(f"source_locations_{d}", p.kw[k.replace("amplitudes", "locations")])
    else:
        p.set(f"receiver_locations_{d}", p.kw[p.one(p.locs)])


@bad
def unknown_argument(p):
    p.set(p.pick(["velocity", "source_amplitude", "pml", "receiver_location", "freq"]), 1.0)


# ------------------------------------------------------------ valid spellings
@good
def as_is(p):
    pass


@good
def spacing_forms(p):
    h = p.kw["grid_spacing"]
    hs = h if isinstance(h, list) else [h] * p.nd
    forms = [tuple(hs), np.array(hs), torch.tensor(hs, dtype=torch.float64), [np.float64(x) for x in hs]]
    p.set("grid_spacing", p.pick(forms))


@good
def pml_forms(p):
    w = list(p.kw["pml_width"])
    forms = [tuple(w), np.array(w), torch.tensor(w), [float(x) for x in w]]
    if len(set(w)) == 1:
        forms += [w[0], float(w[0]), torch.tensor(w[0])] * 2
    p.set("pml_width", p.pick(forms))


@good
def location_forms(p):
    for k in p.locs:
        p.set(k, p.kw[k].to(p.pick([torch.int32, torch.float64, torch.int64])))


@good
def ignored_receiver_twice(p):
    k = p.one(p.recs)
    l = p.kw[k]
    extra = torch.full((l.shape[0], 2, p.nd), ref.IGNORE, dtype=l.dtype)
    p.set(k, torch.cat([l, extra], 1))
    p.cut = k


@good
def nt_also_given(p):
    if not p.amps:
        raise NA
    p.set("nt", p.c["nt"])


@good
def negative_max_vel(p):
    p.set("max_vel", -abs(rel.true_max_vel(p.prop, p.kw)) * (1 + 1e-12 if p.kw["max_vel"] is None else 1))


@good
def single_batch(p):
    k = p.one([m for m in p.models if p.kw[m].ndim == p.nd])
    p.set(k, p.kw[k][None])


@good
def explicit_defaults(p):
    p.kw.setdefault("freq_taper_frac", p.pick([0, 0.0]))
    p.kw.setdefault("time_pad_frac", p.pick([0.0, 0]))
    p.kw.setdefault("time_taper", False)
    p.kw.setdefault("model_gradient_sampling_interval", 1)
    p.set("callback_frequency", p.pick([1, 3, 10**9]))
    p.c["eager"] = False
    p.set("storage_mode", p.pick(["device", "cpu", "none"]))
    p.set("storage_compression", False)


@good
def survey_pad_whole(p):
    """None entries ask for the whole model."""
    if p.c["extract"] != "none" or not p.locs or p.c["ignore"]:
        raise NA
    p.set("survey_pad", p.pick([[None] * 2 * p.nd, tuple([None] * 2 * p.nd), 10**6, [10**6] * 2 * p.nd]))


@good
def origin_zero(p):
    if p.c["extract"] != "none" or not p.wfs:
        raise NA
    p.set("origin", p.pick([[0] * p.nd, tuple([0] * p.nd)]))


@good
def wavefield_zero_given(p):
    """A missing wavefield is zero."""
    if p.c["extract"] == "pad":
        raise NA
    names = [k for k in ref.wavefield_names(p.prop, p.nd) if k not in p.kw]
    k = p.one(names)
    if p.wfs:
        shape = p.kw[p.wfs[0]].shape
    else:
        shape = (p.c["n_shots"], *[s + p.c["pml"][2 * d] + p.c["pml"][2 * d + 1] for d, s in enumerate(p.c["shape"])])
    p.set(k, torch.zeros(shape, dtype=p.dtype))


# ------------------------------------------------------------ other public functions
def api_table(r):
    """(name, callable that must raise)."""
    import deepwave
    from deepwave import common, wavelets
    from deepwave.location_interpolation import Hicks

    g = torch.Generator().manual_seed(r)
    n = 1 + r % 3
    loc = 4 + 4 * torch.rand(1 + r % 2, n, 2, generator=g)
    h = Hicks(loc)
    m = 1000 + torch.rand(5, 6, generator=g)
    sig = torch.rand(2, 2, 9, generator=g)
    Hk = Hicks
    nan = float("nan")
    t = [
        ("hicks_locations_type", lambda: Hk(loc.tolist())),
        ("hicks_locations_dims", lambda: Hk(loc[0])),
        ("hicks_locations_dims4", lambda: Hk(loc[None])),
        ("hicks_locations_nan", lambda: Hk(loc * nan)),
        ("hicks_halfwidth", lambda: Hk(loc, halfwidth=[0, -1, 11, 4.0, "4", None][r % 6])),
        ("hicks_free_surfaces", lambda: Hk(loc, free_surfaces=[[True] * 3, [True] * 5, (True,) * 4, [1, 0, 0, 0], "a", True][r % 6], model_shape=[12, 12])),
        ("hicks_no_model_shape", lambda: Hk(loc, free_surfaces=[r % 2 == 0, r % 2 == 1, False, False])),
        ("hicks_model_shape", lambda: Hk(loc, free_surfaces=[True, False, False, False], model_shape=[[12], [12, 12, 12], (12, 12), ["a", 12], 12][r % 5])),
        ("hicks_monopole_shape", lambda: Hk(loc, monopole=[torch.ones(5, n, dtype=torch.bool), torch.ones(len(loc), n + 1, dtype=torch.bool), torch.ones(n, dtype=torch.bool)][r % 3])),
        ("hicks_dipole_shape", lambda: Hk(loc, monopole=False, dipole_dim=[torch.ones(5, n).long(), torch.ones(len(loc), n + 1).long(), torch.ones(7).long()][r % 3])),
        ("hicks_dipole_dim", lambda: Hk(loc, monopole=False, dipole_dim=[2, -1, torch.full((len(loc), n), 2), torch.full((len(loc), n), -1), 7, 1.5][r % 6])),
        ("hicks_coordinates", lambda: Hk([torch.cat([loc, loc[..., :1]], -1), loc[..., :1]][r % 2])),
        ("hicks_free_surface_locs", lambda: Hk(loc, free_surfaces=[True, False, False, False], model_shape=[12, 12], free_surface_locs=[[-0.5], [-0.5] * 5, (-0.5, 11.5, -0.5, 11.5), ["a", 11.5, -0.5, 11.5], 3.0][r % 5])),
        ("hicks_empty_model", lambda: Hk(loc, free_surfaces=[True, False, False, False], model_shape=[[0, 12], [-3, 12]][r % 2])),
        ("hicks_dtype", lambda: Hk(loc, dtype=["float", None, 32][r % 3])),
        ("hicks_source_type", lambda: h.source(sig.tolist())),
        ("hicks_source_dims", lambda: h.source(torch.rand(len(loc), n))),
        ("hicks_receiver_type", lambda: h.receiver(sig.tolist())),
        ("hicks_receiver_dims", lambda: h.receiver(torch.rand(len(loc), 3))),
        ("hicks_shot_idxs", lambda: h.source(torch.rand(1, n, 5), torch.zeros(2, dtype=torch.long))),
        ("hicks_shot_idxs_r", lambda: h.receiver(torch.rand(1, h.get_locations().shape[1], 5), torch.zeros(3, dtype=torch.long))),
        ("ricker_dt", lambda: wavelets.ricker(25.0, 10, [0.0, 0, -0.0][r % 3], 0.1)),
        ("taper_type", lambda: common.cosine_taper_end([[1.0, 2.0], sig.numpy(), None][r % 3], 1)),
        ("taper_n", lambda: common.cosine_taper_end(sig.clone(), [-1, 1.5, "1", None][r % 4])),
    ]
    for nm, f in (("up", common.upsample), ("down", common.downsample)):
        t += [
            (nm + "_type", lambda f=f: f(sig.tolist(), 2)),
            (nm + "_ratio", lambda f=f: f(sig.clone(), [0, -1, 1.5, "2", None][r % 5])),
            (nm + "_taper", lambda f=f: f(sig.clone(), 3, freq_taper_frac=[-0.1, 1.1, nan, "a", None][r % 5])),
            (nm + "_pad", lambda f=f: f(sig.clone(), 3, time_pad_frac=[-0.1, 1.1, nan, "a", None][r % 5])),
            (nm + "_time_taper", lambda f=f: f(sig.clone(), 3, time_taper=[1, "a", None, 0.5][r % 4])),
        ]
    t += [
        ("cfl_spacing", lambda: common.cfl_condition_n([[], [0.0], [-1.0, 5.0], ["a"], None][r % 5], 0.001, 1500.0)),
        ("cfl_vel", lambda: common.cfl_condition_n([5.0], 0.001, [0.0, -1.0, "a", None][r % 4])),
        ("up_shift", lambda: common.downsample(sig.clone(), 3, shift=["a", None, [1.0]][r % 3])),
        ("module_more_flags", lambda: [deepwave.Acoustic(m, m, 5.0, v_requires_grad="a"), 0] if r % 2 else deepwave.ScalarBorn(m, m, 5.0, v_requires_grad=1)),
        ("module_more_models", lambda: [lambda: deepwave.Acoustic(None, m, 5.0), lambda: deepwave.Elastic(m.tolist(), m, m, 5.0), lambda: deepwave.Elastic(m, None, m, 5.0), lambda: deepwave.ScalarBorn(m.numpy(), m, 5.0)][r % 4]()),
        ("vmap_no_max_vel", lambda: vmapped(r, m, max_vel=None)),
        ("vmap_native", lambda: vmapped(r, m, max_vel=1001.0, python_backend=False)),
        ("vmap_amplitudes", lambda: vmapped(r, m, max_vel=1001.0, over="amp")),
        ("callback_view", lambda: in_callback(m, lambda s: s.get_wavefield("wavefield_0", view=["all", "", "Full", 1, None][r % 5]))),
        ("callback_name", lambda: in_callback(m, lambda s: s.get_wavefield(["wavefield", "", "psi", "v", 0, None][r % 6]))),
        ("callback_model", lambda: in_callback(m, lambda s: s.get_model(["vp", "", "scatter", "wavefield_0", None][r % 5]))),
        ("callback_gradient", lambda: in_callback(m, lambda s: s.get_gradient(["w", "", "grad_v", None][r % 4]), back=True)),
        ("callback_model_view", lambda: in_callback(m, lambda s: s.get_model("v", view=["all", "", "Inner"][r % 3]))),
        ("callback_gradient_view", lambda: in_callback(m, lambda s: s.get_gradient("v", view=["all", "", "PML"][r % 3]), back=True)),
        ("cfl_dt", lambda: common.cfl_condition_n([5.0], ["a", None, [1.0]][r % 3], 1500.0)),
        ("module_model", lambda: deepwave.Scalar([m.tolist(), m.numpy(), None, 3.0][r % 4], 5.0)),
        ("module_born_model", lambda: deepwave.ScalarBorn(m, [m.tolist(), None][r % 2], 5.0)),
        ("module_acoustic_model", lambda: deepwave.Acoustic(m, [m.tolist(), None][r % 2], 5.0)),
        ("module_elastic_model", lambda: deepwave.Elastic(m, m, [m.tolist(), None][r % 2], 5.0)),
        ("module_flag", lambda: deepwave.Scalar(m, 5.0, v_requires_grad=[1, 0, "True", None][r % 4])),
        ("module_born_flag", lambda: deepwave.ScalarBorn(m, m, 5.0, scatter_requires_grad=[1, 0, "True", None][r % 4])),
        ("module_acoustic_flag", lambda: deepwave.Acoustic(m, m, 5.0, rho_requires_grad=[1, 0, "True", None][r % 4])),
        ("module_elastic_flag", lambda: deepwave.Elastic(m, m, m, 5.0, **{["lamb_requires_grad", "mu_requires_grad", "buoyancy_requires_grad"][r % 3]: [1, 0, "True", None][r // 3 % 4]})),
        ("nothing", lambda: deepwave.scalar(m, 5.0, 0.001)),
    ]
    return t


def vmapped(r, m, max_vel, over="model", python_backend=True):
    import deepwave

    amp = torch.ones(2, 1, 1, 4)
    kw = dict(source_locations=torch.tensor([[[2, 2]]]), pml_width=1, pml_freq=25.0, max_vel=max_vel, python_backend=python_backend)
    if over == "model":
        return torch.vmap(lambda v: deepwave.scalar(v, 5.0, 0.001, source_amplitudes=amp[0], **kw)[0])(torch.stack([m, m + 1]))
    return torch.vmap(lambda a: deepwave.scalar(m, 5.0, 0.001, source_amplitudes=a, **kw)[0])(amp)


def in_callback(m, f, back=False):
    """An error in a callback reaches the caller."""
    import deepwave

    v = m.clone().requires_grad_(back)
    o = deepwave.scalar(v, 5.0, 0.001, source_amplitudes=torch.ones(1, 1, 4), source_locations=torch.tensor([[[2, 2]]]), pml_width=1, pml_freq=25.0,
                        **({"backward_callback": f} if back else {"forward_callback": f}))
    if back:
        o[0].sum().backward()
    return o


def run_api(c, mon):
    table = api_table(c["pick"])
    for name, f in table:
        mon.count("api")
        mon.nontrivial(name)
        try:
            out = f()
        except Exception as e:  # noqa: BLE001
            mon.check(not isinstance(e, (SystemError, MemoryError, RecursionError)) and str(e) != "", f"unclear:{name}", f"{type(e)} {e}")
            continue
        mon.violate(f"accepted:{name}", f"pick {c['pick']}: returned {type(out)}")


class Watch:
    def __init__(self):
        self.steps = 0

    def __call__(self, state):
        self.steps += 1


def run(c, mon):
    if c["what"] == "api":
        return run_api(c, mon)
    prop, kw = cases.materialise(c)
    if cases.last_row_outside(c, kw):
        raise Skip
    if c["grad"]:
        for k in cases.float_inputs(kw):
            kw[k] = kw[k].requires_grad_()
    what = c["what"]
    p = P(c, prop, kw)
    p.cut = None
    try:
        (BAD.get(what) or GOOD[what])(p)
    except NA:
        raise Skip
    w = Watch()
    args = {k: v for k, v in p.kw.items() if not k.startswith("_")}
    args.setdefault("forward_callback", w)
    if c["eager"] and "python_backend" not in args and what != "storage_mode":
        args["python_backend"] = "eager"
    fn = through_module if c["module"] and what not in ("model_not_tensor",) else lambda prop, a: cases.fn_of(prop)(**a)
    if what in BAD:
        mon.nontrivial(what)
        if what == "storage_mode" and not c["grad"]:
            pass
        try:
            out = fn(prop, args)
        except Exception as e:  # noqa: BLE001
            mon.count("rejected")
            mon.count(f"rejected:{what}")
            mon.check(w.steps == 0, f"late:{what}", f"{type(e).__name__} raised after {w.steps} time steps")
            mon.check(not isinstance(e, (SystemError, MemoryError, RecursionError)) and str(e) != "", f"unclear:{what}", f"{type(e)} {e}")
            return
        mon.violate(f"accepted:{what}", f"{prop} {c['ndim']}D accepted {what}: {describe(args, kw)}")
        del out
        return
    # valid: same numbers as the plain spelling
    o = rel.outs(prop, kw)
    mon.count("accepted_variants")
    mon.count(f"accepted:{what}")
    mon.nontrivial(what)
    out = fn(prop, args)
    ww, rr = cases.split(prop, c["ndim"], out)
    got = {f"w:{k}": v for k, v in ww.items()}
    got.update({f"r:{k}": v for k, v in rr.items() if v is not None})
    if p.cut:
        t = {ref.rloc_name(x): f"r:{x}" for x in ref.receiver_types(prop, c["ndim"])}[p.cut]
        mon.check(bool((got[t][:, -2:] == 0).all()), f"variant-extra:{what}", "an added ignored receiver recorded something")
        got[t] = got[t][:, :-2]
    rel.compare(mon, got, {k: v for k, v in o.items()}, rel.rtol(c, 1e-10, 3e-4), f"variant:{what}:{prop}", rel.out_floor(prop, o, c["dtype"]))


def through_module(prop, a):
    """The same request through the Module interface."""
    import deepwave

    cls = {"scalar": deepwave.Scalar, "born": deepwave.ScalarBorn, "acoustic": deepwave.Acoustic, "elastic": deepwave.Elastic}[prop]
    a = dict(a)
    init = {k: a.pop(k) for k in ref.model_names(prop) + ["grid_spacing", "storage_mode", "storage_path", "storage_compression"] if k in a}
    m = cls(**init)
    return m(**a)


def describe(args, kw):
    d = []
    for k, v in args.items():
        if k in kw and v is kw[k] or callable(v):
            continue
        d.append(f"{k}={tuple(v.shape)} {v.dtype}" if torch.is_tensor(v) else f"{k}={v!r}"[:200])
    d += [f"no {k}" for k in kw if k not in args and not k.startswith("_")]
    return "; ".join(d)[:600]
