"""C05: gradients of spectra and training loss are the true derivatives."""
import copy
import itertools
import numpy as np
from mc import nid, fd, ref, trc

ID = "C05"
TECHNIQUE = "exhaustive enumeration of layer sequences, patterns and training problems over finite alphabets; for each one the automatic derivative of every output with respect to every permittivity (or model parameter) is compared with difference quotients of the real code"
ASSUMPTIONS = [
    "difference quotients of step 1e-5 (1e-3 for single-precision training losses); entries where left and right quotient disagree (kinks of clipping, peak search, absolute values) are not judged",
]
TIMEOUT = 400
E = {"v": 1.0, "s": 2.25, "d": 4.0, "l": [3.0, 0.5], "m": [2.0, 2.0], "a": [-6.0, 0.8], "z": [0.3, 0.05], "x": 80.0, "y": [-80.0, 2.5], "w": [2.25, 0.003], "g": 9.0, "h": [7.0, 1.5]}
LOSS = {
    "siren": dict(model_type="siren"),
    "nerf": dict(model_type="nerf", L=3.0),
    "voxel": dict(model_type="voxel", N_layers=3, PER_LAYER_THICKNESS=[0.3, 0.2, 0.4]),
    "vpat": dict(model_type="voxel", Nx=4, Ny=4, TRCWA_NG=9, N_freq=1),
    "absorb": dict(model_type="voxel", absorption_loss=True, L=2.0),
    "linear": dict(model_type="voxel", L=1.0, N_freq=3),
    "noise": dict(model_type="voxel", add_noise=True, noise_scale=0.01),
    "pat": dict(model_type="siren", Nx=4, Ny=4, TRCWA_NG=9),
    "over": dict(model_type="siren", Nx=4, Ny=4, TRCWA_NG=9, eps_oversampling=2),
    "cls": dict(model_type="siren", type="classification", use_regularization_loss=True, reg_loss_weight=0.3),
    "cpat": dict(model_type="siren", type="classification", Nx=4, Ny=4, TRCWA_NG=9, use_regularization_loss=False),
    "cnoise": dict(model_type="nerf", type="classification", add_noise=True, noise_scale=0.01),
    "fdtd": dict(model_type="voxel", solver="FDTD", FDTD_niter=36, N_freq=1, N_layers=2, PER_LAYER_THICKNESS=[0.3]),
    "fdtd2": dict(model_type="siren", solver="FDTD", FDTD_niter=36, N_freq=1, N_layers=2, PER_LAYER_THICKNESS=[0.3, 0.4], absorption_loss=True),
}


def outputs(e, c):
    R, T = nid.nidn.compute_spectrum(e, c)
    return list(R) + list(T)


def value(eps, c):
    import torch

    return trc.to_np(outputs(torch.tensor(eps), c))


def compare(ctx, eps, c, what, entries=None, h=1e-5, tol=2e-5, rtol=5e-4):
    """autograd against difference quotients for all outputs and entries"""
    import torch

    e = torch.tensor(eps, requires_grad=True)
    ys = outputs(e, c)
    f0 = np.array([float(y.detach().real) for y in ys])
    g = np.zeros((len(ys),) + eps.shape, complex)
    for i, y in enumerate(ys):
        ctx.check(hasattr(y, "requires_grad") and y.requires_grad, "%s: output %d does not depend on the permittivities" % (what, i))
        (gi,) = torch.autograd.grad(y.real, e, retain_graph=True, allow_unused=True)
        ctx.check(gi is not None, "%s: output %d has no gradient" % (what, i))
        g[i] = gi.detach().resolve_conj().numpy()
    ctx.check(np.all(np.isfinite(g)), lambda: "%s: gradient is not finite at %s" % (what, np.argwhere(~np.isfinite(g))[0].tolist()))
    judged = 0
    for idx in entries or list(np.ndindex(*eps.shape)):
        for d in (1, 1j):
            a, b = eps.copy(), eps.copy()
            a[idx] += h * d
            b[idx] -= h * d
            fa, fb = value(a, c), value(b, c)
            ctx.op(2)
            right, left = (fa - f0) / h, (f0 - fb) / h
            q = (fa - fb) / (2 * h)
            got = g[(slice(None),) + idx]
            got = got.real if d == 1 else got.imag
            smooth = np.abs(right - left) <= 0.02 * np.abs(q) + 1e-3
            bad = smooth & ~(np.abs(got - q) <= tol + rtol * np.abs(q))
            judged += int(smooth.sum())
            ctx.check(not bad.any(), lambda: "%s: derivative of output %d by the %s part at %s is %.8g, autograd says %.8g" % (
                what, int(np.argmax(bad)), "real" if d == 1 else "imaginary", list(idx), q[np.argmax(bad)], got[np.argmax(bad)]))
    ctx.check(judged > 0, "%s: nothing could be judged" % what)
    ctx.trace(judged)
    ctx.outcome(np.round(f0, 3).tolist())


def orbits(n):
    """binary n x n patterns up to translation"""
    seen, out = set(), []
    for bits in range(2 ** (n * n)):
        p = np.array([(bits >> i) & 1 for i in range(n * n)]).reshape(n, n)
        k = min(np.roll(p, (i, j), (0, 1)).tobytes() for i in range(n) for j in range(n))
        if k not in seen:
            seen.add(k)
            out.append(p.tolist())
    return out


PATTERNS = {
    "const": lambda n: np.zeros((n, n)),
    "dot": lambda n: np.eye(1, n * n).reshape(n, n),
    "square": lambda n: np.outer(np.arange(n) < n // 2, np.arange(n) < n // 2) * 1.0,
    "centred": lambda n: np.outer(abs(np.arange(n) - (n - 1) / 2) < n / 4, abs(np.arange(n) - (n - 1) / 2) < n / 4) * 1.0,
    "gratx": lambda n: np.outer(np.arange(n) < n // 2, np.ones(n)) * 1.0,
    "graty": lambda n: np.outer(np.ones(n), np.arange(n) < n // 2) * 1.0,
    "checker": lambda n: (np.add.outer(np.arange(n), np.arange(n)) % 2) * 1.0,
    "cross": lambda n: np.maximum.outer(np.arange(n) == 1, np.arange(n) == 1) * 1.0,
    "diag": lambda n: np.eye(n),
    "generic": lambda n: np.abs(np.sin(1 + 1.7 * np.arange(n * n)).reshape(n, n)),
}


def scenarios(tier):
    quick = tier == "quick"
    out = []
    for n in (1, 2, 3):
        for s in itertools.product("vdlamz" if n < 3 else ("vda" if quick else "vdlaz"), repeat=n):
            out.append(dict(k="uni", s="".join(s), per=bool(n > 1 and (sum(map(ord, s)) % 2)), f=[0.4, 0.9]))
    for n in (1, 2):
        for s in itertools.product("xywd", repeat=n):
            out.append(dict(k="uni", s="".join(s), per=n > 1, f=[0.4, 0.9]))
    for n in (5, 8):
        for i in range(8):
            out.append(dict(k="uni", s=("dvlawszm" * 2)[i : i + n], per=True, f=[0.6]))
    for L in (0.5, 1.0, 2.0, 3.0):
        for ab in (False, True):
            out.append(dict(k="lossfn", L=L, ab=ab))
    for s in ("d", "dl", "al"):
        for L in ([[0.3, 0.0], [0.0, 0.3]], [[0.9, 0.0], [0.1, 0.8]]):
            for ng in (1, 5, 9):
                out.append(dict(k="uni", s=s, per=False, f=[0.7], L=L, ng=ng, top=2.25, bot=3.0))
    for p in orbits(3):
        for hi in ([5.0, 0.2],) if quick else ([5.0, 0.2], [4.0, 0.0], [-5.0, 0.7]):
            out.append(dict(k="pat", p=[p], lo=[2.0, 0.1], hi=hi, ng=9, f=0.6, L=[[0.3, 0.0], [0.0, 0.3]]))
    if not quick:
        for p in orbits(3):
            for L in ([[0.3, 0.0], [0.0, 0.4]], [[0.3, 0.0], [0.15, 0.2598]], [[0.9, 0.0], [0.0, 0.9]]):
                out.append(dict(k="pat", p=[p], lo=2.25, hi=6.0, ng=9, f=0.9, L=L))
    names = list(PATTERNS)
    for a in names:
        for L in ([[0.3, 0.0], [0.0, 0.3]], [[0.7, 0.0], [0.0, 0.7]]) if quick else ([[0.3, 0.0], [0.0, 0.3]], [[0.7, 0.0], [0.0, 0.7]], [[0.3, 0.0], [0.0, 0.4]]):
            for lo, hi in ((2.25, 6.0),) if quick else ((2.25, 6.0), ([2.0, 0.1], [5.0, 0.2]), (1.0, [-5.0, 0.7])):
                for n, ng in ((5, 13),) if quick else ((5, 13), (6, 21)):
                    out.append(dict(k="named", a=[a], n=n, lo=lo, hi=hi, ng=ng, f=1.1, L=L))
    for a, b in itertools.product(names[:4] if quick else names, repeat=2):
        out.append(dict(k="named", a=[a, b], n=5, lo=2.25, hi=[6.0, 0.1], ng=9, f=0.8, L=[[0.4, 0.0], [0.0, 0.4]]))
    for total in (0.4, 0.97, 1.004, 1.009, 1.02, 1.04, 1.1, 1.5):
        for kind in ("step", "ramp", "exp"):
            for share in (0.1, 0.5, 0.9):
                out.append(dict(k="coef", total=total, share=share, kind=kind))
    for s in ("d", "l", "g", "sl", "hv") if quick else map("".join, itertools.chain(itertools.product("vdlmgh", repeat=1), itertools.product("dlvg", repeat=2))):
        for n in (45,) if quick else (45, 110):
            out.append(dict(k="fdtd", s=s, p=dict(thick=[0.32] if len(s) == 1 or s < s[::-1] else [0.3, 0.4], pml=0.6, free=0.6, src=[0.75, 0.15], niter=n)))
    for name in LOSS:
        out.append(dict(k="loss", name=name, seed=3))
        if not quick:
            for seed in (4, 5, 6):
                out.append(dict(k="loss", name=name, seed=seed))
    # long ones first
    return sorted(out, key=lambda s: s["k"] not in ("fdtd", "loss"))


def bounds(tier):
    return "all stacks of 6 materials up to 2 layers and of %s up to 3; stacks of 5 and 8 layers; the loss by both spectra on a value grid; all %d binary 3x3 patterns up to translation; 10 named patterns and %s pairs of them; %d FDTD stacks; the coefficients of recordings of 8 sums (also above one) by the samples; %d training problems: every output by every entry" % (
        ("3", len(orbits(3)), "16", 5, len(LOSS)) if tier == "quick" else ("5", len(orbits(3)), "100", 44, len(LOSS)))


def mix(p, lo, hi):
    lo, hi = trc.cplx(lo), trc.cplx(hi)
    return lo + (hi - lo) * np.asarray(p, float)


def run(s, ctx):
    k = s["k"]
    if k == "uni":
        e = np.array([trc.cplx(E[c]) for c in s["s"]])[None, None, :, None] * np.ones(len(s["f"]))
        th = [0.3, 0.17, 0.4, 0.12, 0.21, 0.35, 0.08, 0.26][: e.shape[2]] if s["per"] else [0.35]
        c = trc.make_cfg(e.shape, s["f"], th, TRCWA_L_grid=s.get("L", [[0.3, 0.0], [0.0, 0.3]]), TRCWA_NG=s.get("ng", 3), TRCWA_TOP_LAYER_EPS=s.get("top", 1.0), TRCWA_BOTTOM_LAYER_EPS=s.get("bot", 1.0))
        compare(ctx, e.astype(complex), c, "stack %s" % s["s"], tol=1e-6)
    elif k in ("pat", "named"):
        if k == "pat":
            ps = s["p"]
        else:
            ps = [PATTERNS[a](s["n"]) for a in s["a"]]
        e = np.stack([mix(p, s["lo"], s["hi"]) for p in ps], -1)[..., None].astype(complex)
        c = trc.make_cfg(e.shape, [s["f"]], [0.3], TRCWA_L_grid=s["L"], TRCWA_NG=s["ng"], TRCWA_TOP_LAYER_EPS=1.0, TRCWA_BOTTOM_LAYER_EPS=2.25)
        entries = None
        if e.size > 30:  # one point of every kind
            entries, seen = [], {}
            for idx in np.ndindex(*e.shape):
                key = (e[idx], idx[2])
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= 3:
                    entries.append(idx)
            entries = entries[:14]
        compare(ctx, e, c, "pattern %s" % s.get("a", "3x3"), entries, h=1e-4)
    elif k == "fdtd":
        p = fd.params(s)
        st = s["s"]
        e = np.array([trc.cplx(E[c]) for c in st])[None, None, :, None]
        compare(ctx, e.astype(complex), fd.cfg(p, len(st), 1), "FDTD stack %s" % st)
    elif k == "coef":
        coef(s, ctx)
    elif k == "lossfn":
        lossfn(s, ctx)
    else:
        loss(s, ctx)
    ctx.state(str(sorted(s.items())))


def coef(s, ctx):
    """coefficients of detector recordings, also where their sum exceeds one, by the recordings with the material"""
    import torch
    from . import c09
    from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import (
        calculate_transmission_reflection_coefficients as calc,
    )

    q = dict(mp=10, wl=1.0, kind=s["kind"], ph=1.0)
    _, W = c09.geometry(q)
    n = 8 * W + 5
    t, r = c09.signals(q, n, [s["total"] * s["share"], s["total"] * (1 - s["share"])])
    c = nid.cfg(solver="FDTD", FDTD_min_gridpoints_per_unit_magnitude=10)
    base = [torch.tensor(x) for x in (t[0], t[1], r[0], r[1])]

    def val(a, b):
        T, R = calc([base[0].clone(), a], [base[2].clone(), b], 1e-6, c)
        ctx.op()
        return [T, R]

    a, b = base[1].clone().requires_grad_(True), base[3].clone().requires_grad_(True)
    y = val(a, b)
    ctx.check(all(v.requires_grad for v in y), "a coefficient does not depend on the recordings")
    f0 = np.array([float(v) for v in y])
    g = [[gi.detach().numpy() if gi is not None else np.zeros(n) for gi in torch.autograd.grad(v, (a, b), retain_graph=True, allow_unused=True)] for v in y]
    h = 1e-6
    dirs = [(base[1], 0 * base[3]), (0 * base[1], base[3] - base[2])]
    for i in range(0, n, 23):  # single samples
        e = torch.zeros(n, dtype=torch.float64)
        e[i] = 1.0
        dirs += [(e, 0 * e), (0 * e, e)]
    judged = 0
    for j, (da, db) in enumerate(dirs):
        fa, fb = [np.array([float(v) for v in val(base[1] + k * da, base[3] + k * db)]) for k in (h, -h)]
        q, right, left = (fa - fb) / (2 * h), (fa - f0) / h, (f0 - fb) / h
        smooth = np.abs(right - left) <= 1e-3 * np.abs(q) + 1e-4
        got = np.array([(gv[0] * da.numpy()).sum() + (gv[1] * db.numpy()).sum() for gv in g])
        judged += int(smooth.sum())
        bad = smooth & ~(np.abs(got - q) <= 1e-5 * (1 + np.abs(q)))
        ctx.check(not bad.any(), lambda: "recordings of sum %g: directional derivative %d of (T, R) is %s, autograd says %s" % (s["total"], j, q.tolist(), got.tolist()))
    ctx.check(judged > 0, "nothing could be judged")
    ctx.trace(judged)
    ctx.outcome(("coef", round(float(f0.sum()), 3)))


def lossfn(s, ctx):
    """the loss as a function of the spectra, also where it rescales unphysical ones"""
    import torch

    f = nid.optional("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    if f is None:
        ctx.shared.skipped["loss function not found under its old name"] += 1
        return
    v = [0.05, 0.3, 0.62, 0.97]
    for R0, T0, R1, T1 in itertools.product(v, v, v[1:3], v[1:3]):
        x = torch.tensor([R0, R1, T0, T1], dtype=torch.float64, requires_grad=True)

        def val(x):
            return f([x[0], x[1]], [x[2], x[3]], [0.213, 0.537], [0.711, 0.137], [0.5, 0.6], s["L"], s["ab"])[0]

        (g,) = torch.autograd.grad(val(x), x)
        h = 1e-6
        for j in range(4):
            d = torch.zeros(4, dtype=torch.float64)
            d[j] = h
            with torch.no_grad():
                q = float(val(x + d) - val(x - d)) / (2 * h)
            ctx.op(2)
            ctx.check(abs(q - float(g[j])) <= 1e-5 * (1 + abs(q)), lambda: "loss of R=%s T=%s: derivative %d is %.8g, autograd says %.8g" % ((R0, R1), (T0, T1), j, q, float(g[j])))
        ctx.trace()
    ctx.outcome("lossfn")


def problem(name, seed):
    o = dict(LOSS[name])
    nf = o.get("N_freq", 2)
    c = nid.cfg(
        name=name, seed=seed, iterations=1, N_layers=2, N_freq=nf, n_neurons=3, hidden_layers=1, learning_rate=1e-3, PER_LAYER_THICKNESS=[0.3, 0.5],
        TRCWA_NG=1, TRCWA_L_grid=[[0.4, 0.0], [0.0, 0.5]], real_min_eps=1.0, real_max_eps=6.0, imag_max_eps=0.6, physical_wavelength_range=[0.9e-6, 1.9e-6],
        target_reflectance_spectrum=[0.9, 0.05, 0.3][:nf], target_transmittance_spectrum=[0.05, 0.9, 0.1][:nf],
    )
    if o.get("solver") == "FDTD":
        c.FDTD_source_position = [0.45, 0.15]
        c.FDTD_pml_thickness, c.FDTD_free_space_distance = 0.3, 0.4
    for a, v in o.items():
        c[a] = v
    return c


def loss(s, ctx):
    import torch

    nidn = nid.nidn
    c = problem(s["name"], s["seed"])
    nidn.run_training(c)
    model = copy.deepcopy(c.model)
    model.zero_grad(set_to_none=True)
    # again with the model supplied (as below), so that the same noise is drawn
    c = problem(s["name"], s["seed"])
    c.model = copy.deepcopy(model)
    nidn.run_training(c)
    f0 = c.results.loss_log[0]
    grads = [p.grad for p in c.model.parameters()]
    ctx.check(all(g is not None for g in grads), "a parameter received no gradient")
    scale = max(float(g.abs().max()) for g in grads)
    ctx.check(np.isfinite(scale) and scale > 0, "the gradient of the training loss is %r" % scale)

    def at(i, j, dx):
        d = problem(s["name"], s["seed"])
        m = copy.deepcopy(model)
        m.zero_grad(set_to_none=True)
        q = list(m.parameters())[i]
        with torch.no_grad():
            q.view(-1)[j] += dx
        d.model = m
        nidn.run_training(d)
        ctx.op()
        return d.results.loss_log[0]

    judged = 0
    for i, g in enumerate(grads):
        g = g.detach().resolve_conj().reshape(-1)
        cx = g.is_complex()
        js = [len(g) - 1] if c.solver == "FDTD" else range(len(g)) if len(g) <= 6 else [0, len(g) // 2, len(g) - 1]
        for j in js:
            for d in (1, 1j) if cx else (1,):
                want = float(g[j].real if d == 1 else g[j].imag)
                ok = False
                tries = []
                for h in (1e-3, 1e-4, 3e-5, 1e-2):
                    fa, fb = at(i, j, h * d), at(i, j, -h * d)
                    q, right, left = (fa - fb) / (2 * h), (fa - f0) / h, (f0 - fb) / h
                    tries.append(q)
                    noise = 4e-7 / h
                    ok = abs(q - want) <= 0.02 * abs(want) + 0.003 * scale + noise
                    if ok:
                        break
                if not ok:
                    # a kink between the two sides: the gradient must be one of them
                    ok = min(abs(right - want), abs(left - want)) <= 0.05 * abs(want) + 0.01 * scale + 2 * noise
                judged += 1
                ctx.check(ok, lambda: "training loss %s: derivative by parameter %d[%d] is %s, the gradient used is %.6g" % (s["name"], i, j, tries, want))
    ctx.trace(judged)
    ctx.outcome((s["name"], round(f0, 4)))
