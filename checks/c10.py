"""C10: validation accepts exactly the valid configurations."""
import copy
import itertools
import math
from mc import nid

ID = "C10"
TECHNIQUE = "exhaustive enumeration of all single and pairwise deviations from a valid configuration (and all combinations of the interacting entries); every verdict of the real validation compared with a declarative specification"
ASSUMPTIONS = [
    "values per entry come from a finite alphabet covering each side of every rule",
    "booleans in place of integers, NaN values and negative wavelengths are outside the statement and not used",
]

INT = "Nx Ny N_layers N_freq encoding_dim n_neurons hidden_layers iterations eps_oversampling seed TRCWA_NG FDTD_niter FDTD_gridpoints_from_material_to_detector FDTD_min_gridpoints_per_unit_magnitude".split()
FLOAT = "L learning_rate real_min_eps real_max_eps imag_min_eps imag_max_eps siren_omega noise_scale reg_loss_weight TRCWA_TOP_LAYER_EPS TRCWA_BOTTOM_LAYER_EPS FDTD_free_space_distance FDTD_pml_thickness".split()
BOOL = "use_regularization_loss add_noise use_gpu avoid_zero_eps absorption_loss".split()
STR = "model_type type name freq_distribution solver FDTD_source_type FDTD_pulse_type".split()
LIST = "PER_LAYER_THICKNESS TRCWA_L_grid FDTD_source_position target_reflectance_spectrum target_transmittance_spectrum physical_wavelength_range".split()
ALL = INT + FLOAT + BOOL + STR + LIST
POSITIVE = "L n_neurons Nx Ny N_layers N_freq learning_rate iterations eps_oversampling noise_scale TRCWA_NG reg_loss_weight FDTD_niter FDTD_free_space_distance FDTD_pml_thickness FDTD_gridpoints_from_material_to_detector FDTD_min_gridpoints_per_unit_magnitude".split()

BASE = dict(
    name="run", seed=3, eps_oversampling=1, real_min_eps=1.0, real_max_eps=12.0, imag_min_eps=0.0, imag_max_eps=3.0,
    Nx=4, Ny=6, N_layers=2, physical_wavelength_range=[1e-6, 2e-6], N_freq=3, model_type="siren", encoding_dim=4,
    siren_omega=1.0, n_neurons=8, hidden_layers=1, learning_rate=1e-3, iterations=2, L=1.0, absorption_loss=False,
    type="regression", use_regularization_loss=True, reg_loss_weight=0.05, add_noise=False, noise_scale=0.001,
    solver="TRCWA", PER_LAYER_THICKNESS=[0.5, 0.25], TRCWA_L_grid=[[0.1, 0.0], [0.0, 0.1]], TRCWA_NG=5,
    TRCWA_TOP_LAYER_EPS=1.0, TRCWA_BOTTOM_LAYER_EPS=1.0, FDTD_min_gridpoints_per_unit_magnitude=10,
    FDTD_source_type="line", FDTD_pulse_type="continuous", FDTD_pml_thickness=1.5, FDTD_source_position=[1.5, 1.0],
    FDTD_free_space_distance=1.0, FDTD_niter=100, FDTD_gridpoints_from_material_to_detector=2,
    target_reflectance_spectrum=[0.5, 0.0, 1.0], target_transmittance_spectrum=[0.5, 1.0, 0.0],
    freq_distribution="linear", use_gpu=False, avoid_zero_eps=True,
)
MISSING = "<missing>"

VALUES = dict(
    Nx=[1, 2, 3, 8, 0, -4],
    Ny=[1, 2, 3, 9, 0, -6],
    N_layers=[1, 3, 0, -2],
    N_freq=[1, 7, 0, -3],
    encoding_dim=[2],
    n_neurons=[1, 0, -8],
    hidden_layers=[0, 9],
    iterations=[1, 3000, 0, -2],
    eps_oversampling=[2, 3, 4, 0, -1],
    seed=[0, 12345],
    TRCWA_NG=[1, 11, 0, -5],
    FDTD_niter=[1, 0, -100],
    FDTD_gridpoints_from_material_to_detector=[1, 7, 8, 10, 11, 0, -2],
    FDTD_min_gridpoints_per_unit_magnitude=[5, 30, 0, -10],
    L=[0.5, 2.0, 0.0, -1.0],
    learning_rate=[1.0, 0.0, -1e-3],
    real_min_eps=[12.0, 12.5, -100.0, 0.0],
    real_max_eps=[1.0, 0.5, -20.0],
    imag_min_eps=[3.0, 3.5, -2.0],
    imag_max_eps=[0.0, -0.5],
    siren_omega=[30.0],
    noise_scale=[1.0, 0.0, -0.001],
    reg_loss_weight=[1.0, 0.0, -0.05],
    TRCWA_TOP_LAYER_EPS=[2.25],
    TRCWA_BOTTOM_LAYER_EPS=[12.0],
    FDTD_free_space_distance=[0.75, 0.15, 3.0, 0.0, -1.0],
    FDTD_pml_thickness=[0.3, 0.0, -1.5],
    use_regularization_loss=[False],
    add_noise=[True],
    use_gpu=[],
    avoid_zero_eps=[False],
    absorption_loss=[True],
    model_type=["nerf", "voxel"],
    type=["classification", "Regression", "", "regresion"],
    name=["other"],
    freq_distribution=["log", "lin", "Log", ""],
    solver=["FDTD", "trcwa", "RCWA", "", "FDTD "],
    FDTD_source_type=["point", "plane", "", "Line"],
    FDTD_pulse_type=["ricker", "hanning", "pulse", "", "Ricker"],
    PER_LAYER_THICKNESS=[[1.0], [0.1, 0.2, 0.3], [], [0.0], [-1.0], [0.5, 0.0], [0.5, -0.25], [0.0, 0.5], [-0.5, 0.25], [0.1, 0.2, 0.3, 0.4]],
    TRCWA_L_grid=[[[1.1, 0.0], [0.4, 0.8]], [[0.0, 0.1], [0.1, 0.0]], [[0.1, 0.1], [0.0, 0.1]], [[0.1, 0.0], [0.1, 0.1]], [[0.1, 0.2], [0.0, 0.1]], [[0.1, 0.0], [0.2, 0.1]]],
    FDTD_source_position=[[1.5, 1.0, 1.0], [1.5], [], [1.0, 1.0, 1.0, 1.0], [0.0, 1.0], [1.5, 0.0], [-1.5, 1.0], [1.5, -1.0], [1.5, 1.0, -1.0]],
    target_reflectance_spectrum=[[0.0, 0.0, 0.0], [-0.1, 0.5, 0.5], [0.5, -0.1, 0.5], [0.5, 0.5, -0.1], [-1e-9, 0.0, 0.0]],
    target_transmittance_spectrum=[[0.0, 0.0, 0.0], [-0.1, 0.5, 0.5], [0.5, -0.1, 0.5], [0.5, 0.5, -0.1], [-1e-9, 0.0, 0.0]],
    physical_wavelength_range=[[1e-6, 30e-6], [2e-6, 1e-6], [1e-6, 1e-6], [0.31e-6, 2e-6], [5e-6, 4.9e-6]],
)
# values just on either side of zero, and far away
for k in ("L", "learning_rate", "noise_scale", "reg_loss_weight", "FDTD_pml_thickness"):
    VALUES[k] += [1e-12, -1e-12, 1e6]
for k in ("Nx", "Ny", "N_layers", "N_freq", "n_neurons", "iterations", "TRCWA_NG", "FDTD_niter", "seed", "hidden_layers", "encoding_dim"):
    VALUES[k] += [1, 120]
VALUES["freq_distribution"] += ["Linear", "linear ", "LOG", "logarithmic"]
VALUES["type"] += ["Classification", "REGRESSION", "classification "]
VALUES["FDTD_source_type"] += ["LINE", "Point", "linesource"]
VALUES["FDTD_pulse_type"] += ["Continuous", "Hanning", "gauss"]
VALUES["solver"] += ["fdtd", "Trcwa"]
for k in ("target_reflectance_spectrum", "target_transmittance_spectrum"):
    VALUES[k] += [[1.5, 0.0, 20.0], [0.0] * 40, [0.1] * 9 + [-0.01]]
WRONG = {}
for k in INT:
    WRONG[k] = [1.5, 2.0, "2", None, [2]]
for k in FLOAT:
    WRONG[k] = [1, "1.0", None, [1.0]]
for k in BOOL:
    WRONG[k] = [0, 1, 0.5, "True", None]
for k in STR:
    WRONG[k] = [1, None, ["x"], True]
for k in LIST:
    WRONG[k] = [1.0, None, "x", {"t": [1.0, 2.0]}]

UNKNOWN = ["Nz", "nx", "thickness", "PER_LAYER_THICKNESSES", "FDTD_iter", "TRCWA_N", "lr", "layers", "TRCWA_THETA", "verbose", "Name", "N_freqs", "_extra", "_Nx", "__debug", "Nx ", "TRCWA_", "FDTD_", "FDTD_debug", "1", "", "target_spectrum", "model2", "result"]
OPTIONAL = {"target_frequencies": [0.5, 0.75, 1.0], "FDTD_grid": [1.0, 2.0], "out_features": 2, "results": {"loss_log": [1.0]}, "best_model_state_dict": {"a": 1}, "N_materials": 4, "thicknesses": [1.0], "FDTD_grid_scaling": 10.0}

INTER = [
    ("Nx", "Ny", "eps_oversampling"),
    ("N_layers", "PER_LAYER_THICKNESS", "solver"),
    ("FDTD_gridpoints_from_material_to_detector", "FDTD_free_space_distance", "FDTD_min_gridpoints_per_unit_magnitude", "physical_wavelength_range"),
    ("real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps"),
    ("solver", "FDTD_source_type", "FDTD_pulse_type", "type", "freq_distribution"),
    ("N_freq", "target_reflectance_spectrum", "target_transmittance_spectrum"),
]


def tolist(v):
    return {"__tuple__": list(v)} if isinstance(v, tuple) else v


def val(v):
    if isinstance(v, dict) and set(v) == {"t"}:
        return tuple(v["t"])
    return copy.deepcopy(v)


def entries():
    """every single deviation as (key, value)"""
    for k in ALL:
        for v in VALUES[k] + WRONG[k] + [MISSING]:
            yield (k, v)
    for k in UNKNOWN:
        yield ("+" + k, 1)
    # whatever the value of an unknown entry, empty ones included
    for v in (None, 0, False, "", [], {}, "text", [1.0], 0.5):
        yield ("+Nz", v)
    for k, v in OPTIONAL.items():
        yield ("+" + k, v)


def scenarios(tier):
    E = list(entries())
    out = [dict(d=[])]
    for e in E:
        for solver in ("TRCWA", "FDTD"):
            d = [list(e)]
            if e[0] != "solver":
                d = [["solver", solver]] + d
            out.append(dict(d=d, deep=True))
    pairs = []
    # pairs are grouped into blocks of the first deviation, to keep the scenario list short
    for i, a in enumerate(E):
        out.append(dict(block=i))
    for g in INTER:
        for combo in itertools.product(*[[BASE[k]] + VALUES[k] for k in g]):
            out.append(dict(d=[[k, v] for k, v in zip(g, combo)]))
    # lists of any length with one bad entry anywhere
    for n in (3, 4, 5, 8, 12):
        good = [round(0.9 - 0.07 * i, 3) if i % 2 else round(0.1 + 0.03 * i, 3) for i in range(n)]
        for solver in ("TRCWA", "FDTD"):
            for m in (n - 1, n, n + 1):
                out.append(dict(d=[["solver", solver], ["N_layers", m], ["PER_LAYER_THICKNESS", good]]))
            for i in range(n):
                for bad in (0.0, -0.2, 1e-9):
                    q = list(good)
                    q[i] = bad
                    out.append(dict(d=[["solver", solver], ["N_layers", n], ["PER_LAYER_THICKNESS", q]]))
            for key in ("target_reflectance_spectrum", "target_transmittance_spectrum"):
                for i in range(n):
                    for bad in (0.0, -1e-6, -3.0, 2.0):
                        q = list(good)
                        q[i] = bad
                        out.append(dict(d=[["solver", solver], ["N_freq", n], [key, q]]))
    for i in range(3):
        for bad in (0.0, -1e-9, 1e-9):
            for n in (2, 3):
                if i < n:
                    q = [1.5, 0.5, 0.25][:n]
                    q[i] = bad
                    out.append(dict(d=[["FDTD_source_position", q]]))
    for free in (0.1, 0.2, 0.25, 0.35, 1.0, 1.25):
        for mp in (3, 4, 10, 16, 37):
            for lo in (0.2e-6, 0.5e-6, 1e-6, 2.5e-6):
                cells = max(10.0 * 1e-6 / lo, mp) * free
                if abs(cells - round(cells)) < 1e-6:
                    continue
                for gap in {max(1, int(cells + 1e-9) + d) for d in (-1, 0, 1)}:
                    out.append(dict(d=[["FDTD_free_space_distance", free], ["FDTD_min_gridpoints_per_unit_magnitude", mp], ["physical_wavelength_range", [lo, 9e-6]], ["FDTD_gridpoints_from_material_to_detector", gap]]))
    if tier != "quick":
        small = [e for e in E if e[1] in VALUES.get(e[0], [])]
        for i in range(len(small)):
            out.append(dict(block3=i))
    return out


def bounds(tier):
    n = len(list(entries()))
    s = "%d single deviations (each with both solvers), all pairs of them, all combinations of 6 groups of interacting entries, lists of up to 12 entries with a bad one at any place" % n
    if tier != "quick":
        s += ", all triples of value deviations of entries taking part in range rules"
    return s


def build(dev):
    d = copy.deepcopy(BASE)
    for k, v in dev:
        if k.startswith("+"):
            d[k[1:]] = val(v)
        elif v == MISSING:
            d.pop(k, None)
        else:
            d[k] = val(v)
    return d


def valid(d):
    """the specification"""
    if any(k not in d for k in ALL):
        return False
    if any(k not in ALL and k not in OPTIONAL and k not in ("model", "material_collection") for k in d):
        return False
    for ks, t in ((INT, int), (FLOAT, float), (BOOL, bool), (STR, str), (LIST, list)):
        if any(type(d[k]) is not t for k in ks):
            return False
    if d["real_min_eps"] > d["real_max_eps"] or d["imag_min_eps"] > d["imag_max_eps"]:
        return False
    lo, hi = d["physical_wavelength_range"]
    if not lo < hi:
        return False
    if any(not d[k] > 0 for k in POSITIVE):
        return False
    cells = max(10.0 * 1e-6 / lo, d["FDTD_min_gridpoints_per_unit_magnitude"])
    if math.floor(cells * d["FDTD_free_space_distance"] + 1e-9) < d["FDTD_gridpoints_from_material_to_detector"]:
        return False
    if d["Nx"] % d["eps_oversampling"] or d["Ny"] % d["eps_oversampling"]:
        return False
    if d["type"] not in ("classification", "regression") or d["solver"] not in ("TRCWA", "FDTD"):
        return False
    if d["freq_distribution"] not in ("linear", "log"):
        return False
    if d["FDTD_source_type"] not in ("point", "line") or d["FDTD_pulse_type"] not in ("ricker", "hanning", "continuous"):
        return False
    a, b = d["TRCWA_L_grid"]
    if not (a[0] > a[1] and b[0] < b[1]):
        return False
    if any(x <= 0 for x in d["PER_LAYER_THICKNESS"] + d["FDTD_source_position"]):
        return False
    if any(x < 0 for x in d["target_reflectance_spectrum"] + d["target_transmittance_spectrum"]):
        return False
    if len(d["PER_LAYER_THICKNESS"]) not in (1, d["N_layers"]):
        return False
    if len(d["FDTD_source_position"]) not in (2, 3):
        return False
    return True


class Touched(Exception):
    pass


def sentinels():
    """a permittivity grid and a model that must not be looked at before the rejection"""
    import torch

    class Grid(torch.Tensor):
        @classmethod
        def __torch_function__(cls, *a, **k):
            raise Touched()

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(1))

        def forward(self, *a):
            raise Touched()

    return torch.zeros(1, 1, 1, 1).as_subclass(Grid), Model()


def plain(c):
    return repr(sorted((k, repr(c[k])) for k in c.keys()))


def verdict(ctx, dev, deep=False):
    from dotmap import DotMap
    from nidn.utils.validate_config import _validate_config

    d = build(dev)
    ok = valid(d)
    c = DotMap(d)
    before = plain(c)
    err = None
    try:
        _validate_config(c)
    except Exception as e:
        err = e
    ctx.op()
    ctx.check(plain(c) == before, "validation changed the configuration (deviation %s)" % dev)
    what = "%s" % [list(x) for x in dev]
    if ok:
        ctx.check(err is None, "valid configuration rejected with %s: %s; deviation %s" % (type(err).__name__, err, what))
    else:
        ctx.check(err is not None, "invalid configuration accepted; deviation %s" % what)
    ctx.outcome(("ok" if ok else "bad", type(err).__name__))
    ctx.state(repr(sorted(map(repr, dev))))
    ctx.trace()
    if deep:
        nidn = nid.nidn
        if not ok:
            grid, model = sentinels()
            for f, name in (
                (lambda c: nidn.compute_spectrum(grid, c), "compute_spectrum"),
                (lambda c: nidn.run_training(c), "run_training"),
            ):
                c = DotMap(build(dev))
                if name == "run_training":
                    c.model = model
                try:
                    f(c)
                except Touched:
                    ctx.fail("%s used an invalid configuration; deviation %s" % (name, what))
                except Exception:
                    pass
                else:
                    ctx.fail("%s accepted an invalid configuration; deviation %s" % (name, what))
                ctx.op()


_E = None


def run(s, ctx):
    global _E
    if _E is None:
        _E = list(entries())
    if "block" in s:
        a = _E[s["block"]]
        for b in _E[s["block"] + 1:]:
            if a[0] != b[0]:
                verdict(ctx, [a, b])
        return
    if "block3" in s:
        small = [e for e in _E if e[1] in VALUES.get(e[0], [])]
        a = small[s["block3"]]
        hot = set(k for g in INTER for k in g)
        if a[0] not in hot:
            return
        rest = [e for e in small[s["block3"] + 1:] if e[0] in hot and e[0] != a[0]]
        for b, c in itertools.combinations(rest, 2):
            if b[0] != c[0]:
                verdict(ctx, [a, b, c])
        return
    verdict(ctx, [tuple(x) for x in s["d"]], s.get("deep"))
