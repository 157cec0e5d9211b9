"""C18: closest material."""
import itertools
import numpy as np
from mc import nid, mats

ID = "C18"
TECHNIQUE = "exhaustive enumeration of permittivity grids over an alphabet of catalogue spectra, mixtures and perturbations; reported materials and distances compared with a direct argmin, both at the comparison routine and at the values drawn by plot_material_grid"
ASSUMPTIONS = ["grids of up to 4x5x3 points, 1..3, 9, 25, 40, 100 frequencies; any material within 1e-9 of the minimum is admitted"]
FR = {1: [0.9], 2: [0.8, 1.9], 3: [0.4, 0.8, 1.3], 9: [0.3 + 0.25 * i for i in range(9)], 25: [0.25 + 0.1 * i for i in range(25)], 40: [0.25 + 0.06 * i for i in range(40)], 100: [0.25 + 0.025 * i for i in range(100)]}


def scenarios(tier):
    quick = tier == "quick"
    out = []
    nm = 10
    for nf in (1, 2, 3):
        for skip in ([], [0], [3, 9]):
            for i in range(nm):
                out.append(dict(k="own", nf=nf, i=i, skip=skip))
            for i, j in itertools.combinations(range(nm), 2):
                out.append(dict(k="mix", nf=nf, i=i, j=j, skip=skip))
            out.append(dict(k="far", nf=nf, skip=skip))
        # different material per frequency: only the mean over all frequencies decides
        for c in itertools.product(range(nm), repeat=nf) if not quick else itertools.product(range(0, nm, 2), repeat=nf):
            out.append(dict(k="freq", nf=nf, c=list(c), skip=[]))
    # many frequencies: single materials, mixtures, and different materials in different parts of the band
    for nf in (9, 25):
        for i in range(nm):
            out.append(dict(k="own", nf=nf, i=i, skip=[]))
        for i, j in itertools.permutations(range(nm), 2):
            out.append(dict(k="mix", nf=nf, i=i, j=j, skip=[i] if i == 3 else []))
            for cut in (1, nf // 3, nf // 2, nf - 1):
                out.append(dict(k="freq", nf=nf, c=[i] * cut + [j] * (nf - cut), skip=[]))
        out.append(dict(k="far", nf=nf, skip=[]))
    for nf in (40, 100):
        for i in range(nm):
            out.append(dict(k="own", nf=nf, i=i, skip=[]))
            j = (i + 3) % nm
            out.append(dict(k="mix", nf=nf, i=i, j=j, skip=[]))
            for cut in (1, nf // 3, nf // 2, nf - 8, nf - 1):
                out.append(dict(k="freq", nf=nf, c=[i] * cut + [j] * (nf - cut), skip=[]))
    for off in range(nm):
        out.append(dict(k="grid", nf=9, sh=[4, 5, 3], off=off, skip=[]))
    for sh in ([1, 1, 1], [1, 1, 4], [2, 1, 1], [1, 3, 1], [3, 2, 2], [2, 3, 1]):
        for off in range(nm):
            out.append(dict(k="grid", nf=2, sh=sh, off=off, skip=[]))
            out.append(dict(k="grid", nf=2, sh=sh, off=off, skip=[1]))
    for off in range(3):
        for skip in ([], [2]):
            out.append(dict(k="plot", nf=2, sh=[2, 3, 2], off=off, skip=skip))
    return out


def bounds(tier):
    return "every material, every pair mixed in 21 proportions, %s per-frequency combinations, 7 grid shapes, 1..3, 9, 25, 40, 100 frequencies, with and without skipped materials" % ("every second" if tier == "quick" else "all")


def expected(eps, names, nf):
    spec = np.array([[mats.expected(n, f)[0] for f in FR[nf]] for n in names])
    d = np.abs(eps[..., None, :] - spec).mean(-1)
    return d


def ask(ctx, eps, s, names, skip):
    import torch

    sh = eps.shape
    c = nid.cfg(Nx=sh[0], Ny=sh[1], N_layers=sh[2], N_freq=sh[3])
    c.target_frequencies = np.array(FR[s["nf"]])
    f = nid.optional("nidn.materials.find_closest_material", "_find_closest_material")
    if f is None:
        return plot(ctx, eps, c, skip)
    mc = nid.nidn.MaterialCollection(c.target_frequencies, to_skip=skip)
    e = torch.tensor(eps)
    dist, idx = f(e, c, mc)
    ctx.check(bool((e == torch.tensor(eps)).all()), "the permittivity grid was modified")
    return dist.detach().numpy(), idx.detach().numpy()


def plot(ctx, eps, c, skip):
    """materials and errors that plot_material_grid draws, in grid layout"""
    import torch
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    from mpl_toolkits.mplot3d.axes3d import Axes3D

    drawn = []
    orig, show = Axes3D.scatter, plt.show

    def scatter(self, xs, ys, zs=0, *a, **k):
        drawn.append([np.asarray(v).ravel() for v in (xs, ys, zs, k["c"])])
        return orig(self, xs, ys, zs, *a, **k)

    Axes3D.scatter, plt.show = scatter, lambda *a, **k: None
    try:
        nid.nidn.plot_material_grid(c, eps=torch.tensor(eps), plot_error=True, to_skip=skip)
    finally:
        Axes3D.scatter, plt.show = orig, show
        plt.close("all")
    out = []
    for xs, ys, zs, v in drawn[:2]:
        g = np.full(eps.shape[:3], np.nan)
        axes = [sorted(set(np.round(a, 9))) for a in (xs, ys, zs)]
        for a, b, d, w in zip(xs, ys, zs, v):
            g[axes[0].index(round(a, 9)), axes[1].index(round(b, 9)), axes[2].index(round(d, 9))] = w
        out.append(g)
    return out[1], (out[0] - 1).astype(int)


def run(s, ctx):
    nf = s["nf"]
    allnames = list(mats.tables())
    skip = [allnames[i] for i in s["skip"]]
    names = [n for n in allnames if n not in skip]
    spec = np.array([[mats.expected(n, f)[0] for f in FR[nf]] for n in allnames])
    k = s["k"]
    if k == "own":
        rows = [spec[s["i"]] + d for d in (0, 1e-7, -1e-3, 0.01j, 0.3 + 0.1j, -0.3j)]
    elif k == "mix":
        rows = [spec[s["i"]] * (1 - t) + spec[s["j"]] * t for t in np.linspace(-0.2, 1.2, 21)]
    elif k == "far":
        rows = [np.full(nf, v, complex) for v in (0, -100, 100, 100j, -50 + 3j, 1, 2.25, 5, 1e4, -1e4)]
        rows += [np.resize([1 + 0j, 30], nf), np.resize([30, 1 + 0j], nf)]
    elif k == "freq":
        rows = [np.array([spec[i][q] for q, i in enumerate(s["c"])])]
    if k in ("grid", "plot"):
        sh = s["sh"]
        eps = np.array([spec[(i + s["off"]) % 10] * (1 + 0.01 * i) for i in range(int(np.prod(sh)))]).reshape(*sh, nf)
    else:
        eps = np.array(rows).reshape(-1, 1, 1, nf)
    if k == "plot":
        c = nid.cfg(Nx=sh[0], Ny=sh[1], N_layers=sh[2], N_freq=nf)
        c.target_frequencies = np.array(FR[nf])
        dist, idx = plot(ctx, eps, c, skip)
    else:
        dist, idx = ask(ctx, eps, s, names, skip)
    d = expected(eps, names, nf)
    ctx.check(dist.shape == eps.shape[:3] and idx.shape == eps.shape[:3], lambda: "shapes %s %s" % (dist.shape, idx.shape))
    for p in np.ndindex(*eps.shape[:3]):
        ctx.op()
        i = int(idx[p])
        m = d[p].min()
        ctx.check(0 <= i < len(names), "material index %d" % i)
        ctx.check(d[p][i] <= m * (1 + 1e-9) + 1e-9, lambda: "point %s: reported %s (distance %g) but %s is closer (%g)" % (p, names[i], d[p][i], names[int(d[p].argmin())], m))
        ctx.check(abs(dist[p] - m) <= 1e-9 * (1 + m), lambda: "point %s: reported distance %r, expected %r" % (p, dist[p], m))
        ctx.state(names[i], round(float(m), 9))
        ctx.trace()
    ctx.outcome((k, names[int(idx.ravel()[0])]))
