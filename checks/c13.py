"""C13: regression models -> permittivity grid."""
import itertools
import numpy as np
from mc import nid, scripted

ID = "C13"
TECHNIQUE = "exhaustive enumeration of grid shapes, oversampling, thicknesses, ranges, output levels and noise draws; scripted and real models evaluated through model_to_eps_grid, every grid point compared with the model output at its own coordinates"
ASSUMPTIONS = [
    "grids up to 4x4 (6x6 with oversampling), 4 layers, 3 frequencies, single larger ones up to 16x16, 12 layers, 80 frequencies; model outputs prescribed per point",
    "single-precision grid: relative tolerance 2e-6; zero avoidance is judged on ranges that contain both +-0.01 or lie on one side",
]
RANGES = [
    [-100.0, 100.0, 0.0, 3.0],
    [1.0, 12.0, 0.0, 0.0],
    [-20.0, -1.0, -2.0, 5.0],
    [2.0, 2.0, 1.0, 1.5],
    [0.0, 7.0, 0.5, 9.0],
    [-3.0, 0.0, -4.0, -1.0],
    [-1.5, 2.5, 0.0, 0.25],
    [-250.0, 40.0, -30.0, 55.0],
    [0.004, 0.2, 20.0, 21.0],
]
LEVELS = [0.0, 1.0, 0.5, 0.25, 0.123456789, 0.999, 1e-7]


def divisors(a, b):
    return [d for d in range(1, min(a, b) + 1) if a % d == 0 and b % d == 0]


def scenarios(tier):
    quick = tier == "quick"
    out = []
    sizes = [1, 2, 3, 4] + ([] if quick else [6])
    for nx, ny in list(itertools.product(sizes, repeat=2)) + [(6, 6), (6, 3), (2, 6)]:
        for os_ in divisors(nx, ny):
            for nl, nf in itertools.product((1, 2, 3, 4), (1, 2, 3)):
                for th in ("one", "many"):
                    for dist in ("linear", "log"):
                        if quick and (nl == 4 or nf == 3) and (nx + ny) % 3:
                            continue
                        out.append(dict(k="map", n=[nx, ny, nl, nf], os=os_, th=th, dist=dist))
    # larger grids, more layers and frequencies
    for n, os_ in (([8, 8, 2, 3], 4), ([8, 8, 2, 3], 1), ([5, 7, 3, 3], 1), ([10, 10, 1, 2], 5), ([12, 6, 2, 2], 3), ([16, 16, 1, 1], 2), ([1, 12, 1, 3], 1), ([12, 1, 3, 1], 1),
                   ([1, 1, 5, 2], 1), ([1, 1, 6, 3], 1), ([2, 1, 8, 2], 1), ([1, 1, 12, 1], 1), ([1, 1, 1, 5], 1), ([1, 2, 2, 8], 1), ([2, 2, 3, 12], 2), ([1, 1, 2, 30], 1), ([2, 1, 1, 80], 1)):
        for th in ("one", "many"):
            for dist in ("linear", "log"):
                out.append(dict(k="map", n=n, os=os_, th=th, dist=dist))
    for r in range(len(RANGES)):
        for avoid in (False, True):
            for n in ([1, 1, 1, 1], [2, 3, 2, 2], [1, 1, 3, 2]):
                out.append(dict(k="range", r=r, avoid=avoid, n=n))
                out.append(dict(k="voxel", r=r, avoid=avoid, n=n))
                for z in ("lo", "hi", "mixed", "zero", "seed"):
                    for scale in (0.001, 0.3, 2.0):
                        out.append(dict(k="noise", r=r, avoid=avoid, n=n, z=z, scale=scale, voxel=False))
                        out.append(dict(k="noise", r=r, avoid=avoid, n=n, z=z, scale=scale, voxel=True))
    for mt in ("siren", "nerf", "voxel"):
        for seed in range(3 if quick else 12):
            for n, os_ in (([1, 1, 1, 1], 1), ([2, 2, 3, 2], 1), ([4, 2, 2, 3], 2)):
                for r in (0, 2, 4):
                    out.append(dict(k="net", mt=mt, seed=seed, n=n, os=os_, r=r))
    return out


def bounds(tier):
    return "grid sizes %s squared x all common oversamplings x 1..4 layers x 1..3 frequencies x both thickness kinds x both distributions; 17 larger shapes (to 16x16, 12 layers, 80 frequencies); %d ranges x %d output levels (all pairs) x zero avoidance x 5 noise scripts x 3 scales; 3 network types" % (
        "1..4" if tier == "quick" else "1..4,6", len(RANGES), len(LEVELS))


def config(n, r, os_=1, th="one", dist="linear", avoid=False, **over):
    nx, ny, nl, nf = n
    c = nid.cfg(
        Nx=nx, Ny=ny, N_layers=nl, N_freq=nf, eps_oversampling=os_, freq_distribution=dist,
        PER_LAYER_THICKNESS=[0.7] if th == "one" else ([0.3, 1.1, 0.45, 0.8] * 3)[:nl],
        real_min_eps=r[0], real_max_eps=r[1], imag_min_eps=r[2], imag_max_eps=r[3],
        avoid_zero_eps=avoid, type="regression", model_type="siren", physical_wavelength_range=[0.4e-6, 1.7e-6], **over
    )
    c.target_frequencies = nid.nidn.compute_target_frequencies(0.4e-6, 1.7e-6, nf, dist)
    c.out_features = 2
    return c


def mapped(out, r):
    re = np.clip(r[0] + (r[1] - r[0]) * out[..., 0], r[0], r[1])
    im = np.clip(r[2] + (r[3] - r[2]) * out[..., 1], r[2], r[3])
    return re, im


def judge(ctx, eps, n, r, re, im, avoid, what):
    """re, im: expected values [Nx,Ny,NL,NF] (None: only ranges)"""
    g = eps.detach().cpu().numpy()
    ctx.check(g.shape == tuple(n), lambda: "%s: grid shape %s, expected %s" % (what, g.shape, n))
    ctx.check(np.iscomplexobj(g), "%s: grid is not complex" % what)
    sr, si = max(1, abs(r[0]), abs(r[1])), max(1, abs(r[2]), abs(r[3]))
    tr, ti = 2e-6 * sr, 2e-6 * si
    ctx.check(bool(np.isfinite(g).all()), "%s: not finite" % what)
    slack = 0.01 if avoid else 0.0
    ctx.check(bool((g.real >= r[0] - tr).all()) and bool((g.real <= max(r[1], 0.01 if avoid and r[1] >= 0 else r[1]) + tr).all()), lambda: "%s: real parts %g..%g outside [%g, %g]" % (what, g.real.min(), g.real.max(), r[0], r[1]))
    ctx.check(bool((g.imag >= r[2] - ti).all()) and bool((g.imag <= r[3] + ti).all()), lambda: "%s: imaginary parts %g..%g outside [%g, %g]" % (what, g.imag.min(), g.imag.max(), r[2], r[3]))
    if avoid:
        ctx.check(bool((np.abs(g.real) >= 0.01 - 1e-8).all()), lambda: "%s: real part %g closer to zero than 0.01" % (what, g.real.flat[np.abs(g.real).argmin()]))
    ctx.op(g.size)
    if re is None:
        return g
    ctx.close(g.imag, im, ti, "%s: imaginary part" % what)
    if avoid:
        near = np.abs(re) < 0.01 + tr
        ctx.close(np.where(near, 0, g.real), np.where(near, 0, re), tr, "%s: real part" % what)
        ctx.check(bool((np.abs(g.real[near]) <= 0.01 + 2 * tr).all()), "%s: value near zero moved too far" % what)
        neg = near & (re < -10 * tr)
        ctx.check(bool((g.real[neg] < 0).all()) and bool((g.real[near & (re > 10 * tr)] > 0).all()), "%s: zero avoidance changed the sign of a value" % what)
    else:
        ctx.close(g.real, re, tr, "%s: real part" % what)
    return g


def coords_grid(tk, n, os_):
    """coordinates of every grid point [Nx,Ny,NL,NF,4]"""
    nx, ny, nl, nf = n
    ii = np.arange(nx) // os_
    jj = np.arange(ny) // os_
    g = np.stack(np.meshgrid(tk[0][ii], tk[1][jj], tk[2], tk[3], indexing="ij"), -1)
    return g


def wave(a):
    """smooth, point-distinguishing outputs in [0,1]"""
    p = a @ np.array([[0.9, 1.7], [1.3, 0.6], [0.0021, 0.0037], [0.07, 0.043]]) + np.array([0.3, 1.1])
    return 0.5 + 0.5 * np.sin(p)


class Draws:
    """prescribed normal draws"""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        import torch

        self.saved = {k: getattr(torch, k) for k in ("randn_like", "randn")}
        if self.kind == "seed":
            torch.manual_seed(5)
            return self

        def fill(t):
            v = {"lo": -4.0, "hi": 4.0, "zero": 0.0}.get(self.kind)
            if v is not None:
                return torch.full_like(t, v)
            p = torch.tensor([-3.0, 0.4, 4.0, 0.0, 1.0, -0.5], dtype=t.dtype)
            return p.repeat(t.numel() // 6 + 1)[: t.numel()].reshape(t.shape)

        torch.randn_like = lambda t, *a, **k: fill(t)
        torch.randn = lambda *sh, **k: fill(torch.zeros(*sh, **{q: v for q, v in k.items() if q in ("dtype",)}))
        return self

    def __exit__(self, *a):
        import torch

        for k, v in self.saved.items():
            setattr(torch, k, v)


def voxel_cfg(c):
    c.model_type = "voxel"
    return c


def set_voxel(c, values):
    import torch
    from nidn.training.model.init_network import init_network

    m = init_network(c)
    p = list(m.parameters())
    assert len(p) == 1
    with torch.no_grad():
        p[0].copy_(torch.as_tensor(values, dtype=p[0].dtype))
    return m, p[0]


def run(s, ctx):
    import torch

    S = scripted.make()
    k = s["k"]
    n = s["n"]
    togrid = nid.nidn.model_to_eps_grid
    if k == "map":
        r = RANGES[6]
        c = config(n, r, s["os"], s["th"], s["dist"])
        tk, pts = scripted.discover(c, 2)
        scripted.judge_ticks(ctx, c, tk, pts)
        m = S(wave, 2)
        eps, ids = togrid(m, c)
        ctx.check(ids is None, "regression returned material ids")
        cg = coords_grid(tk, n, s["os"])
        out = wave(cg.reshape(-1, 4)).reshape(*n, 2)
        re, im = mapped(out, r)
        judge(ctx, eps, n, r, re, im, False, "grid")
        ctx.state("map", tuple(n), s["os"], s["th"], s["dist"])
        ctx.trace()
    elif k in ("range", "noise", "voxel"):
        r = RANGES[s["r"]]
        avoid = s["avoid"]
        over = {}
        if k == "noise":
            over = dict(add_noise=True, noise_scale=s["scale"])
        c = config(n, r, avoid=avoid, **over)
        lv = LEVELS + [(0.0 - r[0]) / (r[1] - r[0]) if r[0] < 0 < r[1] else 0.75, (0.005 - r[0]) / (r[1] - r[0]) if r[0] < 0 < r[1] else 0.3, (-0.005 - r[0]) / (r[1] - r[0]) if r[0] < 0 < r[1] else 0.7]
        if k == "range":
            lv = lv + [-0.5, 1.5]
        if k == "voxel" or s.get("voxel"):
            voxel_cfg(c)
            size = int(np.prod(n))
            vals = []
            for a, b in itertools.product(lv + [-0.5, 1.5], repeat=2):
                vals.append(complex(r[0] + (r[1] - r[0]) * a, r[2] + (r[3] - r[2]) * b))
            for i in range(0, len(vals), size):
                v = np.resize(np.array(vals[i: i + size]), n)
                m, p = set_voxel(c, v)
                before = p.detach().clone()
                v32 = before.numpy().astype(complex)
                if k == "voxel":
                    eps, _ = togrid(m, c)
                    judge(ctx, eps, n, r, np.clip(v32.real, r[0], r[1]), np.clip(v32.imag, r[2], r[3]), avoid, "voxel grid")
                else:
                    with Draws(s["z"]):
                        eps, _ = togrid(m, c)
                    judge(ctx, eps, n, r, None, None, avoid, "noisy voxel grid")
                ctx.check(bool((p.detach() == before).all()), "the model parameters were changed by evaluating it")
                ctx.trace()
        else:
            tk, pts = scripted.discover(c, 2)
            rank = scripted.ranker(tk)
            pairs = list(itertools.product(lv, repeat=2))
            size = int(np.prod(n))
            for i in range(0, len(pairs), size):
                tab = np.resize(np.array(pairs[i: i + size]), (*n, 2))
                m = S(lambda a: tab[tuple(rank(a).T)], 2)
                re, im = mapped(tab, r)
                if k == "range":
                    eps, _ = togrid(m, c)
                    judge(ctx, eps, n, r, re, im, avoid, "grid")
                else:
                    with Draws(s["z"]):
                        eps, _ = togrid(m, c)
                    judge(ctx, eps, n, r, None, None, avoid, "noisy grid")
                    if s["z"] in ("seed", "mixed") and s["scale"] == 0.001 and not avoid:
                        g = eps.detach().numpy()
                        ctx.close(g.real, re, 0.02 * (r[1] - r[0]) + 2e-4, "small noise moved the real part")
                        ctx.close(g.imag, im, 0.02 * (r[3] - r[2]) + 2e-5, "small noise moved the imaginary part")
                ctx.trace()
        ctx.state(k, s["r"], avoid, tuple(n), s.get("z"), s.get("scale"), s.get("voxel"))
    elif k == "net":
        from nidn.training.model.init_network import init_network

        r = RANGES[s["r"]]
        c = config(n, r, s["os"], "many", "log", True, n_neurons=6, hidden_layers=2)
        c.model_type = s["mt"]
        torch.manual_seed(s["seed"])
        m = init_network(c)
        if s["mt"] == "voxel":
            v = list(m.parameters())[0].detach().numpy().astype(complex)
            eps, _ = togrid(m, c)
            judge(ctx, eps, n, r, v.real, v.imag, True, "voxel network grid")
        else:
            seen = []
            h = m.register_forward_pre_hook(lambda mod, a: seen.append(a[0].detach().numpy().copy()))
            eps, _ = togrid(m, c)
            h.remove()
            tk = scripted.ticks(seen)
            scripted.judge_ticks(ctx, c, tk, np.concatenate(seen))
            with torch.no_grad():
                out = m(torch.tensor(coords_grid(tk, n, s["os"]).reshape(-1, 4))).numpy().reshape(*n, 2)
            re, im = mapped(out, r)
            judge(ctx, eps, n, r, re, im, True, "network grid")
        ctx.state("net", s["mt"], s["seed"], tuple(n), s["r"])
        ctx.trace()
    ctx.outcome(k)
