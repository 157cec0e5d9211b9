"""C04: spectra depend only on grid and configuration values."""
import copy
import itertools
import numpy as np
from mc import nid, trc

ID = "C04"
TECHNIQUE = "exhaustive exploration of all operation sequences up to a depth over one configuration object in the real library; every spectrum is compared with the one of a fresh configuration in an untouched process, and all swaps of frequency slices are enumerated"
ASSUMPTIONS = [
    "after changing the wavelengths the RCWA solver's frequencies are refreshed with get_frequency_points, as the documentation asks",
    "single-threaded CPU computation",
]
RANGES = ([1e-6, 2e-6], [1.5e-6, 2.4e-6])
THICK = ([0.1, 0.2], [0.15])
DEFAULT = dict(solver="TRCWA", thick=0, nf=1, range=0, top=0, ng=0, dist=0)
OPS = [
    "rcwa", "fdtd", "thick", "nf", "range", "top", "ng", "dist", "points", "build", "train", "train_fdtd", "other", "fail_nan", "fail_cfg", "fail_niter", "copy", "grad", "nograd",
]
CORE = ["fdtd", "thick", "nf", "range", "train_fdtd", "rcwa", "fail_niter"]
MEASURE = ("rcwa", "fdtd", "grad", "nograd")
REF = {}


def config(v):
    nf = v["nf"]
    return nid.cfg(
        solver=v["solver"],
        N_layers=2,
        N_freq=nf,
        PER_LAYER_THICKNESS=list(THICK[v["thick"]]),
        physical_wavelength_range=list(RANGES[v["range"]]),
        TRCWA_TOP_LAYER_EPS=[1.0, 2.25][v["top"]],
        TRCWA_NG=[3, 9][v["ng"]],
        TRCWA_L_grid=[[0.3, 0.0], [0.0, 0.3]],
        freq_distribution=["linear", "log"][v["dist"]],
        target_reflectance_spectrum=[0.5] * nf,
        target_transmittance_spectrum=[0.4] * nf,
        FDTD_pml_thickness=0.2,
        FDTD_free_space_distance=0.3,
        FDTD_source_position=[0.35, 0.15],
        FDTD_gridpoints_from_material_to_detector=1,
        FDTD_niter=16,
        iterations=1,
        n_neurons=3,
        hidden_layers=1,
    )


def grid(nf, shape=(1, 1, 2)):
    import torch

    n = int(np.prod(shape)) * nf
    x = np.arange(n).reshape(shape + (nf,))
    return torch.tensor(2.0 + 0.45 * np.cos(x * 1.7) + 1j * (0.1 + 0.08 * np.sin(x * 2.3)))


def spec(c, e, solver):
    c.solver = solver
    R, T = nid.nidn.compute_spectrum(e, c)
    return np.array([trc.to_np(R), trc.to_np(T)])


def key(v, solver):
    v = dict(v)
    del v["solver"]
    if solver == "FDTD":
        v["top"] = v["ng"] = 0
    return solver + str(sorted(v.items()))


def _ref_seq(job):
    v, solver = job
    c = config(v)
    if solver == "TRCWA":
        nid.nidn.get_frequency_points(c)
    return key(v, solver), spec(c, grid(v["nf"]), solver)


def prepare():
    """every reference value is computed in a process of its own, forked before any other use of the library"""
    import multiprocessing as mp

    bits = ["thick", "range", "top", "ng", "dist"]
    jobs, seen = [], set()
    for nf in (2, 1):
        for vals in itertools.product((0, 1), repeat=len(bits)):
            v = dict(DEFAULT, nf=nf, **dict(zip(bits, vals)))
            for solver in ("TRCWA", "FDTD"):
                k = key(v, solver)
                if k not in seen:
                    seen.add(k)
                    jobs.append((_ref_seq, (v, solver)))
    for solver, names in (("TRCWA", R_ENTRIES), ("FDTD", F_ENTRIES)):
        for alt in [()] + [(x,) for x in ENTRIES] + list(itertools.combinations(names, 2)):
            k = ekey(alt, solver)
            if k not in seen:
                seen.add(k)
                jobs.append((_ref_entry, (alt, solver)))
    for n in PROBLEMS:
        jobs.append((_ref_problem, n))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for k, r in pool.imap_unordered(_call, jobs, chunksize=1):
            if k is None:
                raise RuntimeError(r)
            REF[k] = r


def _call(job):
    try:
        return job[0](job[1])
    except Exception as e:
        return None, "%s for %s" % (repr(e)[:200], job[1])


def _maybe(f, *args):
    try:
        return f(*args)
    except Exception as e:  # e.g. too few time steps for the signal to arrive
        return "raises " + type(e).__name__


# every entry that matters to a solver: ordinary value, other value
ENTRIES = {
    "PER_LAYER_THICKNESS": ([0.2, 0.3], [0.3, 0.2]),  # same total
    "physical_wavelength_range": ([1e-6, 2e-6], [0.5e-6, 0.7e-6]),
    "freq_distribution": ("linear", "log"),
    "N_freq": (3, 2),
    "N_layers": (2, 1),
    "shape": ((1, 1), (4, 4)),
    "eps": (0, 1),
    "TRCWA_TOP_LAYER_EPS": (1.0, 2.25),
    "TRCWA_BOTTOM_LAYER_EPS": (1.0, 3.0),
    "TRCWA_NG": (9, 3),
    "TRCWA_L_grid": ([[0.6, 0.0], [0.0, 0.7]], [[0.6, 0.0], [0.2, 0.7]]),
    "FDTD_source_type": ("line", "point"),
    "FDTD_pulse_type": ("continuous", "ricker"),
    "FDTD_pml_thickness": (0.2, 0.3),
    "FDTD_free_space_distance": (0.4, 0.3),  # together with the former: same grid size
    "FDTD_source_position": ([0.35, 0.05], [0.45, 0.05]),
    "FDTD_niter": (40, 47),
    "FDTD_gridpoints_from_material_to_detector": (1, 2),
    "FDTD_min_gridpoints_per_unit_magnitude": (10, 20),
    # not for the solvers
    "name": ("one", "two"),
    "seed": (3, 4),
    "type": ("regression", "classification"),
    "model_type": ("siren", "nerf"),
    "L": (1.0, 2.0),
    "absorption_loss": (False, True),
    "add_noise": (False, True),
    "avoid_zero_eps": (True, False),
    "real_min_eps": (-2.0, 1.0),
    "target_reflectance_spectrum": ([0.1, 0.2, 0.3], [0.3, 0.2, 0.1]),
}
COMMON = ["PER_LAYER_THICKNESS", "physical_wavelength_range", "freq_distribution", "N_freq", "N_layers", "shape", "eps"]
R_ENTRIES = COMMON + [k for k in ENTRIES if k.startswith("TRCWA")]
F_ENTRIES = COMMON[:5] + ["eps"] + [k for k in ENTRIES if k.startswith("FDTD")]
INPLACE = ["PER_LAYER_THICKNESS", "physical_wavelength_range", "TRCWA_L_grid", "FDTD_source_position", "eps"]


def ekey(alt, solver):
    return solver + "|" + ",".join(sorted(alt))


def evals(alt):
    return {k: copy.deepcopy(x[k in alt]) for k, x in ENTRIES.items()}


def egrid(val):
    g = grid(val["N_freq"], tuple(val["shape"]) + (val["N_layers"],))
    return g * 1.25 + 0.2 if val["eps"] else g


def eapply(c, val, names=None):
    for k in names or ENTRIES:
        if k == "shape":
            c.Nx, c.Ny = val[k]
        elif k == "eps":
            pass
        else:
            c[k] = copy.deepcopy(val[k])
    nf = val["N_freq"]
    c.PER_LAYER_THICKNESS = list(val["PER_LAYER_THICKNESS"])[: val["N_layers"]]
    c.target_reflectance_spectrum = list(val["target_reflectance_spectrum"])[:nf]
    c.target_transmittance_spectrum = [0.4] * nf
    nid.nidn.get_frequency_points(c)


def econfig(val):
    c = nid.cfg(N_layers=2, iterations=1, n_neurons=3, hidden_layers=1)
    eapply(c, val)
    return c


def _ref_entry(job):
    alt, solver = job
    val = evals(alt)
    r = spec(econfig(val), egrid(val), solver) if len(alt) < 2 else _maybe(spec, econfig(val), egrid(val), solver)
    return ekey(alt, solver), r


# whole problems of different size and kind; any of them after any other on one configuration
PROBLEMS = {
    "plain": dict(L=2, f=2, th=[0.1, 0.2]),
    "deep": dict(L=6, f=2, th=[0.15], sh=[1, 1]),
    "fine": dict(L=2, f=3, th=[0.2, 0.1], sh=[6, 5], ng=13, rng=[0.21e-6, 0.45e-6], top=2.0),
    "zero": dict(L=3, f=2, th=[0.1, 0.2, 0.05], eps="zero"),
    "zerop": dict(L=2, f=1, th=[0.1], sh=[4, 4], ng=9, eps="zero"),
    "many": dict(L=1, f=13, th=[0.33], rng=[0.3e-6, 3e-6], dist="log"),
    "wide": dict(L=4, f=2, th=[0.3], ng=21, lat=[[2.5, 0.0], [0.0, 3.0]], bot=4.0),
    "extreme": dict(L=3, f=2, th=[2.5, 0.001, 0.7], eps="extreme"),
    "f": dict(solver="FDTD", L=2, f=2, th=[0.1, 0.2]),
    "fdeep": dict(solver="FDTD", L=4, f=1, th=[0.1]),
    "fnear": dict(solver="FDTD", L=1, f=3, th=[0.3], rng=[1.0e-6, 1.012e-6]),
    "fshort": dict(solver="FDTD", L=1, f=2, th=[0.2], rng=[0.4e-6, 0.6e-6], niter=45),
    "fpoint": dict(solver="FDTD", L=2, f=1, th=[0.2, 0.1], stype="point", eps="zero"),
}


def papply(c, q):
    nf = q["f"]
    c.solver = q.get("solver", "TRCWA")
    c.N_layers, c.N_freq = q["L"], nf
    c.PER_LAYER_THICKNESS = list(q["th"])
    c.Nx, c.Ny = q.get("sh", [1, 1])
    c.TRCWA_NG = q.get("ng", 5)
    c.TRCWA_L_grid = copy.deepcopy(q.get("lat", [[0.3, 0.0], [0.0, 0.3]]))
    c.TRCWA_TOP_LAYER_EPS, c.TRCWA_BOTTOM_LAYER_EPS = q.get("top", 1.0), q.get("bot", 1.0)
    c.physical_wavelength_range = list(q.get("rng", [1e-6, 2e-6]))
    c.freq_distribution = q.get("dist", "linear")
    c.target_reflectance_spectrum, c.target_transmittance_spectrum = [0.5] * nf, [0.4] * nf
    c.FDTD_source_type = q.get("stype", "line")
    c.FDTD_niter = q.get("niter", 30)
    nid.nidn.get_frequency_points(c)


def pgrid(q):
    g = grid(q["f"], tuple(q.get("sh", [1, 1])) + (q["L"],))
    kind = q.get("eps")
    flat = g.view(-1)
    if kind == "zero" and q.get("solver") != "FDTD":
        for i, x in enumerate((0.3j, 1e-9 + 0.2j, -1e-7 + 0.1j, -3.0, 1.0, 1e-3 - 0j)):
            flat[(i * 5) % len(flat)] = x
    elif kind == "zero":
        flat[0], flat[-1] = 1.0, 0.9 + 0j
    elif kind == "extreme":
        for i, x in enumerate((200.0, -300 + 2j, 1e-4 + 1e-4j, 50j)):
            flat[i] = x
    return g


def pconfig(q):
    c = nid.cfg(FDTD_pml_thickness=0.2, FDTD_free_space_distance=0.3, FDTD_source_position=[0.35, 0.15 if q.get("stype") != "point" else 0.05], FDTD_gridpoints_from_material_to_detector=1, n_neurons=3, hidden_layers=1, iterations=1)
    c.FDTD_source_position = [0.35, 0.05]
    papply(c, q)
    return c


def _ref_problem(name):
    q = PROBLEMS[name]
    c = pconfig(q)
    return "P|" + name, spec(c, pgrid(q), c.solver)


def snapshot(c, names):
    return {k: repr(c[k].tolist()) if hasattr(c[k], "tolist") else repr(c[k]) for k in names}


def run_switch(s, ctx):
    names = None
    c = None
    for i, n in enumerate(s["path"]):
        q = PROBLEMS[n]
        if c is None:
            c = pconfig(q)
        else:
            papply(c, q)
        names = names or [k for k in c.keys() if k != "FDTD_grid_scaling"]
        e = pgrid(q)
        raw, before = e.numpy().tobytes(), snapshot(c, names)
        got = spec(c, e, c.solver)
        what = "problem %s after %s" % (n, s["path"][:i])
        after = snapshot(c, names)
        diff = [k for k in names if before[k] != after[k]]
        ctx.check(not diff, lambda: "%s changed the configuration: %s" % (what, [(k, before[k], after[k]) for k in diff]))
        ctx.check(e.numpy().tobytes() == raw, lambda: "%s modified the permittivity grid" % what)
        ctx.close(got, REF["P|" + n], 1e-9, "spectrum of " + what)
        ctx.op()
        ctx.trace()
        ctx.state("switch", tuple(s["path"][: i + 1]))
    ctx.outcome(("switch", s["path"][-1]))


class World:
    def __init__(self, ctx):
        self.v = dict(DEFAULT)
        self.c = config(self.v)
        nid.nidn.get_frequency_points(self.c)
        self.ctx = ctx
        self.fresh = config(self.v)
        self.hist = []
        self.grids = {nf: grid(nf) for nf in (1, 2)}
        self.bytes = {nf: g.numpy().tobytes() for nf, g in self.grids.items()}

    def values(self):
        import torch

        out = {}
        for k in self.fresh.keys():
            x = self.c[k]
            out[k] = repr(x.tolist()) if hasattr(x, "tolist") else repr(x)
        return out

    def measure(self, solver, wrap=None):
        import torch

        e = self.grids[self.v["nf"]]
        if wrap == "grad":
            e = e.clone().requires_grad_(True)
        self.c.solver = solver
        before = self.values()
        dt, gm = torch.get_default_dtype(), torch.is_grad_enabled()
        if wrap == "nograd":
            with torch.no_grad():
                got = spec(self.c, e, solver)
        else:
            got = spec(self.c, e, solver)
        after = self.values()
        diff = [k for k in before if before[k] != after[k]]
        self.ctx.check(not diff, lambda: "computing a %s spectrum changed the configuration: %s after %s" % (solver, [(k, before[k], after[k]) for k in diff], self.hist))
        self.ctx.check(torch.get_default_dtype() == dt and torch.is_grad_enabled() == gm, "global torch settings changed")
        for nf in (1, 2):
            self.ctx.check(self.grids[nf].numpy().tobytes() == self.bytes[nf], lambda: "the permittivity grid was modified (after %s)" % self.hist)
        self.ctx.close(got, REF[key(self.v, solver)], 1e-10, "%s spectrum after %s" % (solver, self.hist))
        self.ctx.op()
        self.ctx.trace()

    def do(self, op):
        import torch

        nidn, c, v = nid.nidn, self.c, self.v
        self.hist.append(op)
        if op == "rcwa":
            self.measure("TRCWA")
        elif op == "fdtd":
            self.measure("FDTD")
        elif op == "grad":
            self.measure("TRCWA", "grad")
        elif op == "nograd":
            self.measure("FDTD", "nograd")
        elif op == "thick":
            v["thick"] ^= 1
            c.PER_LAYER_THICKNESS = list(THICK[v["thick"]])
        elif op == "nf":
            v["nf"] = 3 - v["nf"]
            c.N_freq = v["nf"]
            c.target_reflectance_spectrum = [0.5] * v["nf"]
            c.target_transmittance_spectrum = [0.4] * v["nf"]
            nidn.get_frequency_points(c)
        elif op == "range":
            v["range"] ^= 1
            c.physical_wavelength_range = list(RANGES[v["range"]])
            nidn.get_frequency_points(c)
        elif op == "dist":
            v["dist"] ^= 1
            c.freq_distribution = ["linear", "log"][v["dist"]]
            nidn.get_frequency_points(c)
        elif op == "top":
            v["top"] ^= 1
            c.TRCWA_TOP_LAYER_EPS = [1.0, 2.25][v["top"]]
        elif op == "ng":
            v["ng"] ^= 1
            c.TRCWA_NG = [3, 9][v["ng"]]
        elif op == "points":
            nidn.get_frequency_points(c)
        elif op == "build":
            b = nidn.LayerBuilder(c)
            b.build_uniform_layer("titanium_oxide")
            b.build_circle_layer("germanium", "zinc_oxide")
        elif op in ("train", "train_fdtd"):
            if "model" in c.keys():
                del c["model"]
            c.solver = "FDTD" if op == "train_fdtd" else "TRCWA"
            before = {k: x for k, x in self.values().items() if k not in ("target_frequencies",)}
            nidn.run_training(c)
            after = self.values()
            diff = [k for k in before if before[k] != after[k]]
            self.ctx.check(not diff, lambda: "training changed the configuration entries %s" % diff)
        elif op == "other":
            # other problems on other configurations
            d = config(dict(DEFAULT, thick=1, nf=1, range=1, top=1))
            d.TRCWA_NG = 7
            d.TRCWA_L_grid = [[0.5, 0.0], [0.0, 0.7]]
            d.Nx = d.Ny = 6
            d.PER_LAYER_THICKNESS = [0.7]
            nidn.get_frequency_points(d)
            spec(d, grid(1, (6, 6, 2)), "TRCWA")
        elif op == "fail_nan":
            e = self.grids[v["nf"]].clone()
            e[0, 0, 1, 0] = float("nan")
            self.expect(lambda: spec(c, e, "TRCWA"))
        elif op == "fail_cfg":
            keep = c.TRCWA_NG
            c.TRCWA_NG = -1
            self.expect(lambda: spec(c, self.grids[v["nf"]], "TRCWA"))
            c.TRCWA_NG = keep
        elif op == "fail_niter":
            keep = c.FDTD_niter
            c.FDTD_niter = 4
            self.expect(lambda: spec(c, self.grids[v["nf"]], "FDTD"))
            c.FDTD_niter = keep
        elif op == "copy":
            self.c = copy.deepcopy(c)
        else:
            raise AssertionError(op)
        self.ctx.op()

    def expect(self, f):
        try:
            f()
        except Exception:
            return
        self.ctx.fail("a computation that must be rejected was not")


def scenarios(tier):
    quick = tier == "quick"
    out = [dict(k="seq", ops=[])]
    for d in (1, 2):
        for ops in itertools.product(OPS, repeat=d):
            if not (quick and d == 2 and ops[1] in MEASURE):  # the end measures anyway
                out.append(dict(k="seq", ops=list(ops)))
    pool, depth = (CORE[:5], 3) if quick else (OPS, 3)
    for ops in itertools.product(pool, repeat=depth):
        if not (quick and ops[-1] in MEASURE):
            out.append(dict(k="seq", ops=list(ops)))
    if not quick:
        for ops in itertools.product(CORE, repeat=4):
            out.append(dict(k="seq", ops=list(ops)))
    # every entry, every pair of entries, there and back again
    for solver, names in (("TRCWA", R_ENTRIES), ("FDTD", F_ENTRIES)):
        for x in ENTRIES:
            out.append(dict(k="entry", solver=solver, path=[x, x], how="set"))
            if x in names:
                out.append(dict(k="entry", solver=solver, path=[x, x], how="two"))
                if x in INPLACE:
                    out.append(dict(k="entry", solver=solver, path=[x, x], how="inplace"))
        for x, y in itertools.combinations(names, 2):
            out.append(dict(k="entry", solver=solver, path=[x, y, x, y], how="set"))
            if not quick:
                out.append(dict(k="entry", solver=solver, path=[y, x, y, x], how="set"))
                out.append(dict(k="entry", solver=solver, path=[x, y, x, y], how="two"))
    for shape in ([1, 1, 2], [4, 4, 1], [1, 1, 1]):
        for solver in ("TRCWA", "FDTD"):
            if solver == "FDTD" and (shape[0] > 1 or quick and shape[2] == 1):
                continue
            for mask in itertools.product((0, 1), repeat=3):
                out.append(dict(k="slice", solver=solver, shape=shape, mask=list(mask)))
    for perm in itertools.permutations(range(3)):
        for shape in ([1, 1, 2], [4, 4, 2]):
            out.append(dict(k="perm", perm=list(perm), shape=shape))
    for a, b in itertools.product(PROBLEMS, repeat=2):
        out.append(dict(k="switch", path=[a, b, a]))
    if not quick:
        for p in itertools.product(PROBLEMS, repeat=3):
            out.append(dict(k="switch", path=list(p)))
    # coarser frequency grids over the same range are contained in the finer ones
    for rng in ([1e-6, 2e-6], [1.0e-6, 1.018e-6], [0.602e-6, 0.615e-6], [0.7e-6, 0.7001e-6], [0.3e-6, 4e-6]):
        for dist in ("linear", "log"):
            for shape in ([1, 1, 1], [1, 1, 3], [5, 4, 1]):
                out.append(dict(k="nest", solver="TRCWA", rng=rng, dist=dist, shape=shape))
            if rng[1] < 3e-6:
                for shape in ([1, 1, 1], [1, 1, 2]):
                    out.append(dict(k="nest", solver="FDTD", rng=rng, dist=dist, shape=shape))
    for kind in ("view", "expand", "conj", "c64", "fortran", "neg"):
        for solver in ("TRCWA", "FDTD"):
            for shape in ([1, 1, 2], [4, 4, 2]):
                out.append(dict(k="layout", kind=kind, solver=solver, shape=shape))
    return out


def bounds(tier):
    return "changing and restoring each of 29 configuration entries and all pairs of those a solver reads, measuring in between; all sequences of %d operations up to depth %s; then both solvers; all slice swaps of 3 frequencies, all orders of 3 frequencies, 6 memory layouts; each of 13 whole problems after each other one; nested frequency grids of 13 (RCWA) and 5 (FDTD) points on 5 ranges" % (
        len(OPS), "2 and of 5 up to depth 3" if tier == "quick" else "3 and of 7 up to depth 4")


def run(s, ctx):
    import torch

    k = s["k"]
    if k == "seq":
        w = World(ctx)
        for op in s["ops"]:
            w.do(op)
            ctx.state(tuple(w.hist), str(sorted(w.v.items())))
        w.hist.append("(end)")
        w.measure("TRCWA")
        w.measure("FDTD")
        w.measure("TRCWA")
        ctx.outcome(str(sorted(w.v.items())))
        return
    if k == "entry":
        return run_entry(s, ctx)
    if k == "switch":
        return run_switch(s, ctx)
    if k == "nest":
        return run_nest(s, ctx)
    shape = tuple(s["shape"])
    v = dict(DEFAULT, nf=3)

    def mk(nf=3):
        c = config(dict(v, nf=nf))
        c.Nx, c.Ny, c.N_layers = shape
        c.TRCWA_NG = 5
        if shape[2] == 1:
            c.PER_LAYER_THICKNESS = [0.3]
        nid.nidn.get_frequency_points(c)
        return c

    a, b = grid(3, shape), grid(3, shape).flip(2 if shape[2] > 1 else 3) * 1.3 + 0.1
    if k == "slice":
        m = torch.tensor(s["mask"], dtype=torch.bool)
        mix = torch.where(m, b, a)
        sv = s["solver"]
        ra, rb, rm = spec(mk(), a, sv), spec(mk(), b, sv), spec(mk(), mix, sv)
        ctx.op(3)
        want = np.where(np.array(s["mask"], bool), rb, ra)
        ctx.close(rm, want, 1e-10, "spectrum of a grid with slices %s exchanged" % s["mask"])
        ctx.check(np.all(np.abs(ra - rb) > 1e-6), "exchanging a slice has no effect") if not np.allclose(a.numpy(), b.numpy()) else None
        if sv == "TRCWA":
            for i in range(3):
                c = mk(1)
                c.target_frequencies = mk().target_frequencies[i : i + 1]
                one = spec(c, a[..., i : i + 1], sv)
                ctx.close(one[:, 0], ra[:, i], 1e-10, "frequency %d alone" % i)
        ctx.trace(3)
        ctx.state("slice", sv, shape, tuple(s["mask"]))
        ctx.outcome("slice")
    elif k == "perm":
        r0 = spec(mk(), a, "TRCWA")
        c = mk()
        f = list(np.asarray(c.target_frequencies, float)[s["perm"]])
        c.target_frequencies = f
        r = spec(c, a[..., s["perm"]], "TRCWA")
        ctx.op(2)
        ctx.close(r, r0[:, s["perm"]], 1e-10, "frequencies in the order %s" % s["perm"])
        ctx.trace()
        ctx.state("perm", tuple(s["perm"]), shape)
        ctx.outcome("perm")
    elif k == "layout":
        if s["solver"] == "FDTD" and shape[0] > 1:
            return
        kind = s["kind"]
        tol = 1e-10
        if kind == "view":
            e = torch.cat([b, a, b], 3)[..., 3:6]
        elif kind == "expand":
            a = a[..., :1] * torch.ones(3)
            e = a[..., :1].expand(*a.shape)
        elif kind == "conj":
            e = torch.conj(torch.conj(a).resolve_conj())
        elif kind == "c64":
            e, tol = a.to(torch.complex64), 2e-5
        elif kind == "fortran":
            e = a.permute(3, 2, 1, 0).contiguous().permute(3, 2, 1, 0)
        else:
            e = torch._neg_view(-a)
        raw = e.detach().clone().resolve_conj().resolve_neg().numpy().tobytes()
        r0, r = spec(mk(), a.clone(), s["solver"]), spec(mk(), e, s["solver"])
        ctx.op(2)
        ctx.close(r, r0, tol, "the same values in a %s tensor" % kind)
        ctx.check(e.detach().clone().resolve_conj().resolve_neg().numpy().tobytes() == raw, "the grid was modified")
        ctx.trace()
        ctx.state("layout", kind, s["solver"], shape)
        ctx.outcome("layout")


def run_nest(s, ctx):
    shape, fdtd = tuple(s["shape"]), s["solver"] == "FDTD"
    top = 4 if fdtd else 12
    full = None
    g = grid(top + 1, shape)
    for step in [d for d in range(1, top + 1) if top % d == 0]:
        nf = top // step + 1
        c = pconfig(dict(solver=s["solver"], L=shape[2], f=nf, th=[0.13], sh=list(shape[:2]), rng=s["rng"], dist=s["dist"], niter=260, ng=5))
        if fdtd:
            c.FDTD_min_gridpoints_per_unit_magnitude = 50
            c.FDTD_gridpoints_from_material_to_detector = 3
        r = spec(c, g[..., ::step].clone(), s["solver"])
        ctx.op()
        if full is None:
            full = r
            ctx.check(np.isfinite(full).all(), "non-finite spectrum")
            continue
        ctx.close(r, full[:, ::step], 1e-7, "%d frequencies against the same ones among %d (%s, %s)" % (nf, top + 1, s["dist"], s["rng"]))
        ctx.trace()
        ctx.state("nest", s["solver"], shape, s["dist"], tuple(s["rng"]), nf)
    ctx.outcome(("nest", s["solver"]))


def run_entry(s, ctx):
    solver, how = s["solver"], s["how"]
    alt = set()
    val = evals(alt)
    c, e = econfig(val), egrid(val)
    worlds = {(): (c, e)}
    hist = []

    def measure(c, e):
        want = REF[ekey(alt, solver)]
        what = "%s spectrum after %s (other values: %s)" % (solver, hist, sorted(alt))
        if isinstance(want, str):
            got = _maybe(spec, c, e, solver)
            ctx.check(isinstance(got, str), lambda: "%s: a fresh process %s, here the result is %s" % (what, want, got))
        else:
            ctx.close(spec(c, e, solver), want, 1e-10, what)
        ctx.op()
        ctx.trace()
        ctx.state(solver, how, tuple(sorted(alt)))

    measure(c, e)
    for x in s["path"]:
        alt ^= {x}
        hist.append("%s %s" % (how, x))
        val = evals(alt)
        if how == "set":
            eapply(c, val, [x])
            e = egrid(val)
        elif how == "inplace":
            if x == "eps":
                e.copy_(egrid(val))
            else:
                old, new = c[x], val[x]
                for i in range(len(new)):
                    if isinstance(new[i], list):
                        for j in range(len(new[i])):
                            old[i][j] = new[i][j]
                    else:
                        old[i] = new[i]
            nid.nidn.get_frequency_points(c)
        else:  # two configurations side by side
            w = tuple(sorted(alt))
            if w not in worlds:
                worlds[w] = (econfig(val), egrid(val))
            c, e = worlds[w]
        measure(c, e)
    ctx.outcome("entry")
