"""C22: plots and printed configurations show the run's data."""
import contextlib
import io
import itertools
import os
import tempfile
import numpy as np
from mc import nid, mats

ID = "C22"
TECHNIQUE = "exhaustive enumeration of runs (grid shapes, frequency counts, problem types) and of sequences of plots of several runs; the data of every drawn line, point and label is read back from the real figures and compared with the run, and the run is compared before and after"
ASSUMPTIONS = [
    "figures are inspected before rendering (matplotlib's own rendering is trusted); saved files are only checked to be readable images",
    "runs without permittivity noise",
    "at most four frequencies in the per-frequency plot, the capacity of its figure",
]
SHAPES = [[1, 1, 1], [1, 1, 3], [2, 1, 1], [1, 3, 1], [2, 3, 1], [3, 2, 2], [2, 3, 4]]
KINDS = ["spectra", "spectra_half", "spectra_given", "spectrum", "spectrum_abs", "losses", "model", "perfreq", "perfreq_sel", "eps", "material", "material_err", "material_skip", "point", "point_one", "point_many", "point_eps", "point_array", "point_list"]


def canon(v):
    import torch

    if torch.is_tensor(v):
        return ("t", v.detach().cpu().numpy().tobytes(), tuple(v.shape), v.requires_grad)
    if isinstance(v, np.ndarray):
        return ("a", v.tobytes(), v.shape)
    if isinstance(v, torch.nn.Module):
        return ("m", v.training, tuple((k, x.detach().numpy().tobytes(), None if getattr(x, "grad", None) is None else x.grad.numpy().tobytes()) for k, x in v.state_dict(keep_vars=True).items()))
    if isinstance(v, dict):
        return ("d", tuple((k, canon(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(canon(x) for x in v))
    if isinstance(v, (int, float, str, bool, complex, type(None))):
        return (type(v).__name__, repr(v))
    return ("o", type(v).__name__)


def make(n, nf, typ="regression", dist="linear", number=1, solver="TRCWA", wide=False):
    """a finished run without having trained: a model with distinct outputs, logs, frequencies"""
    import torch

    class Distinct(torch.nn.Module):
        def __init__(self, width):
            super().__init__()
            self.p = torch.nn.Parameter(torch.tensor(0.1 * number))
            self.width = width

        def forward(self, x):
            i = torch.arange(len(x) * self.width).reshape(len(x), self.width)
            # depends on the coordinates, so a point keeps its value in any batch
            h = torch.sin(3.1 * x[:, :1] + 5.7 * x[:, 1:2] + 7.9 * x[:, 2:3] + 11.3 * x[:, 3:4] + torch.arange(self.width) * 2.3 + self.p)
            return torch.sigmoid(2 * h) + 0 * i

    t = np.arange(nf)
    c = nid.cfg(
        Nx=n[0], Ny=n[1], N_layers=n[2], N_freq=nf, PER_LAYER_THICKNESS=[0.2 + 0.1 * i for i in range(n[2])], TRCWA_NG=1, type=typ, freq_distribution=dist, solver=solver, FDTD_niter=40,
        physical_wavelength_range=[0.7e-6, 1.9e-6 + 0.1e-6 * number], real_min_eps=1.0, real_max_eps=9.0, imag_max_eps=0.7, name="run%d" % number,
        target_reflectance_spectrum=[float(x) for x in 0.1 + 0.05 * (t % 7)], target_transmittance_spectrum=[float(x) for x in 0.8 - 0.07 * (t % 5)],
    )
    if wide:
        c.real_min_eps, c.real_max_eps, c.imag_max_eps = -90.0, 120.0, 60.0
        c.physical_wavelength_range = [0.4e-6, 31e-6]
    nid.nidn.get_frequency_points(c)
    if typ == "classification":
        c.material_collection = nid.nidn.MaterialCollection(c.target_frequencies)
        c.N_materials = c.material_collection.N_materials
        c.out_features = c.N_materials
    else:
        c.out_features = 2
    c.model = Distinct(c.out_features)
    from dotmap import DotMap

    c.results = DotMap()
    c.results.loss_log = [0.9 / (k + number) for k in range(6)]
    c.results.weighted_average_log = [0.8 / (k + 2 * number) for k in range(6)]
    c.results.L1_errs = [0.5 / (k + 3 * number) for k in range(6)]
    if wide:
        c.results.loss_log = [40.0 * 0.01**k for k in range(9)]
        c.results.weighted_average_log = [25.0 * 0.02**k for k in range(9)]
        c.results.L1_errs = [0.9 * 0.005**k for k in range(9)]
    return c


def scenarios(tier):
    quick = tier == "quick"
    out = []
    for n in SHAPES:
        for nf in (1, 2, 3, 4, 6) if not quick or n in (SHAPES[1], SHAPES[5]) else (1, 4):
            for typ in ("regression", "classification"):
                for dist in ("linear", "log") if nf > 2 else ("linear",):
                    for g in range(5):
                        out.append(dict(k="plots", n=n, nf=nf, type=typ, dist=dist, g=g))
    # permittivities, wavelengths and losses of any magnitude
    for n in (SHAPES[1], SHAPES[5]):
        for nf in (1, 2, 5):
            for g in range(5):
                out.append(dict(k="plots", n=n, nf=nf, type="regression", dist="linear" if g % 2 else "log", g=g, wide=True))
    for depth in (2,) if quick else (2, 3):
        for seq in itertools.product(["spectra_given", "spectrum", "losses", "model", "perfreq", "material", "point_one"][: 7 if depth == 2 else 5], repeat=depth):
            out.append(dict(k="seq", seq=list(seq)))
    for i, (n, nf, typ) in enumerate([([1, 1, 1], 1, "regression"), ([1, 1, 2], 2, "classification"), ([2, 3, 2], 3, "regression"), ([1, 1, 3], 5, "regression"), ([2, 2, 1], 4, "classification"), ([1, 1, 1], 12, "regression")]):
        out.insert(0, dict(k="all", n=n, nf=nf, type=typ, its=[6, 1, 0, 40, 2, 6][i]))
    for kind in KINDS:
        out.append(dict(k="file", kind=kind))
    for sol in ("FDTD",):
        out.append(dict(k="plots", n=[1, 1, 1], nf=1, type="regression", dist="linear", g=0, solver=sol))
    for stage in ("default", "frequencies", "trained", "loaded", "cls", "list", "none", "long"):
        out.append(dict(k="print", stage=stage))
    return out


def bounds(tier):
    return "%d grid shapes x up to 5 frequency counts x 2 problem types x 2 distributions (and two shapes with large permittivities, wavelengths and losses) x %d plots; all sequences of %s of %s plots of different runs with all figures open; saving all plots for 6 runs; printing at 8 stages of a run" % (
        len(SHAPES), len(KINDS), "2" if tier == "quick" else "2 and 3", "7" if tier == "quick" else "7 and 5")


@contextlib.contextmanager
def recording():
    """records the calls that draw points; figures are not shown"""
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    from mpl_toolkits.mplot3d.axes3d import Axes3D

    calls = []
    orig, show = Axes3D.scatter, plt.show

    def scatter(self, xs, ys, zs=0, *a, **k):
        r = orig(self, xs, ys, zs, *a, **k)
        v = r.get_array()
        calls.append((self, np.array(xs, float).ravel(), np.array(ys, float).ravel(), np.array(zs, float).ravel(), None if v is None else np.array(v, float).ravel(), r.get_clim(), r))
        return r

    Axes3D.scatter = Axes3D.scatter3D = scatter
    plt.show = lambda *a, **k: None
    try:
        yield calls
    finally:
        Axes3D.scatter = Axes3D.scatter3D = orig
        plt.show = show


def as_grid(ctx, call, n, what):
    ax, x, y, z, v = call[:5]
    ctx.check(v is not None and len(x) == len(y) == len(z) == len(v) == n[0] * n[1] * n[2], lambda: "%s: %d points drawn for a grid of %s" % (what, len(x), n))
    g = np.full(n, np.nan)
    u = [np.unique(np.round(a, 9)) for a in (x, y, z)]
    ctx.check([len(a) for a in u] == list(n), lambda: "%s: %s positions along the axes, grid is %s" % (what, [len(a) for a in u], n))
    for a, b, c, d in zip(x, y, z, v):
        g[tuple(int(np.searchsorted(q, round(p, 9))) for q, p in zip(u, (a, b, c)))] = d
    # the layer labels
    lab = dict(zip(np.round(ax.get_zticks(), 9), [t.get_text() for t in ax.get_zticklabels()]))
    for i, p in enumerate(u[2]):
        ctx.check(lab.get(p) == "L%d" % (i + 1), lambda: "%s: layer %d is labelled %r" % (what, i + 1, lab.get(p)))
    return g


def lines(ax):
    return [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_color(), l.get_linestyle()) for l in ax.get_lines()]


def by_label(ctx, ax, what):
    """label -> line data, matched through the colour shown in the legend"""
    leg = ax.get_legend()
    ctx.check(leg is not None, "%s: no legend" % what)
    from matplotlib.colors import to_hex

    out = {}
    for t, h in zip(leg.get_texts(), leg.legend_handles):
        m = [l for l in lines(ax) if to_hex(l[2]) == to_hex(h.get_color())]
        ctx.check(len(m) == 1, lambda: "%s: %d lines in the colour of %r" % (what, len(m), t.get_text()))
        out[t.get_text()] = m[0]
    return out


def visible(ctx, ax, what, y=True):
    """every drawn value lies inside the axes"""
    for i, lim in ((0, ax.get_xlim()), (1, ax.get_ylim())) if y else ((0, ax.get_xlim()),):
        lo, hi = min(lim), max(lim)
        log = (ax.get_xscale(), ax.get_yscale())[i] == "log"
        for l in lines(ax):
            v = l[i][np.isfinite(l[i])]
            v = v[v > 0] if log else v
            t = 1e-9 * (abs(lo) + abs(hi))
            ctx.check(len(v) == 0 or (v.min() >= lo - t and v.max() <= hi + t), lambda: "%s: values %g..%g outside the axis %g..%g" % (what, v.min(), v.max(), lo, hi))


def have_line(ctx, ax, x, y, what):
    for l in lines(ax):
        if len(l[0]) == len(x) and np.allclose(l[0], x, rtol=1e-9, atol=0) and np.allclose(l[1], y, rtol=2e-6, atol=1e-9):
            return
    ctx.fail("%s is not drawn (drawn: %s)" % (what, [(l[0].tolist(), l[1].tolist()) for l in lines(ax)][:3]))


def axes_with(ctx, fig, word, n=1):
    a = [x for x in fig.axes if word in x.get_ylabel()]
    ctx.check(len(a) == n, lambda: "%d plots labelled %s" % (len(a), word))
    return a


def draw(ctx, kind, c, path=None, check=True):
    """one plot of a run; the figure is compared with the run"""
    import torch
    from matplotlib import pyplot as plt

    nidn = nid.nidn
    n = [c.Nx, c.Ny, c.N_layers]
    eps, _ = nidn.model_to_eps_grid(c.model, c)
    eps = eps.detach()
    e = eps.numpy()
    wl = 1.0 / np.asarray(c.target_frequencies)
    nf = len(wl)
    before = {k: canon(v) for k, v in c.items()}
    keep = eps.numpy().tobytes()
    t = np.arange(nf)
    R, T = 0.05 + 0.9 * ((t * 0.37) % 0.5), 0.02 + 0.8 * ((t * 0.61) % 0.5)
    old = set(plt.get_fignums())
    kw = {} if path is None else dict(save_path=path)
    with recording() as calls:
        if kind == "spectra":
            nidn.plot_spectra(c, **kw)
        elif kind == "spectra_half":
            # one of the spectra of the model itself; the other one is computed
            r, u = nidn.compute_spectrum(eps, c)
            before = {k: canon(v) for k, v in c.items()}
            one = dict(prod_R_spectrum=torch.tensor([float(x) for x in r])) if nf % 2 else dict(prod_T_spectrum=torch.tensor([float(x) for x in u]))
            nidn.plot_spectra(c, **one, **kw)
        elif kind == "spectra_given":
            lim = [[-0.1, 0.9], [0.05, 1.3]]
            nidn.plot_spectra(c, prod_R_spectrum=torch.tensor(R), prod_T_spectrum=torch.tensor(T), markers=False, ylim=lim, **kw)
        elif kind == "spectrum":
            nidn.plot_spectrum(c, torch.tensor(R), torch.tensor(T), **kw)
        elif kind == "spectrum_abs":
            nidn.plot_spectrum(c, list(R), list(T), show_absorption=True, **kw)
        elif kind == "losses":
            nidn.plot_losses(c, **kw)
        elif kind == "model":
            nidn.plot_model_grid(c, **kw)
        elif kind == "perfreq":
            nidn.plot_model_grid_per_freq(c, **kw)
        elif kind == "perfreq_sel":
            sel = ([nf - 1, 0, nf // 2, nf // 3] + [0])[: min(4, nf)]
            nidn.plot_model_grid_per_freq(c, freq_idx=sel, **kw)
        elif kind == "eps":
            nidn.plot_epsilon_grid(eps, c, **kw)
        elif kind == "material":
            nidn.plot_material_grid(c, **kw)
        elif kind == "material_err":
            nidn.plot_material_grid(c, eps=eps, plot_error=True, **kw)
        elif kind == "material_skip":
            nidn.plot_material_grid(c, eps=eps, to_skip=["germanium", "silicon_nitride"], plot_error=True, **kw)
        elif kind == "point":
            nidn.plot_eps_per_point(c, **kw)
        elif kind == "point_one":
            nidn.plot_eps_per_point(c, compare_to_material="zinc_oxide", legend=False, **kw)
        elif kind == "point_many":
            nidn.plot_eps_per_point(c, compare_to_material=["germanium", "titanium_oxide"], **kw)
        elif kind == "point_eps":
            c.eps = torch.tensor(e[::-1].copy())
            before["eps"] = canon(c.eps)
            nidn.plot_eps_per_point(c, legend=False, **kw)
        elif kind in ("point_array", "point_list"):
            c.eps = e[::-1].copy() if kind == "point_array" else e[::-1].tolist()
            before["eps"] = canon(c.eps)
            nidn.plot_eps_per_point(c, legend=False, **kw)
    ctx.op()
    for k, v in before.items():
        ctx.check(k in c and canon(c[k]) == v, lambda: "plotting %s changed the run: entry %s" % (kind, k))
    # (computing a spectrum may leave derived entries)
    ctx.check(kind in ("spectra", "spectra_half") or set(c.keys()) == set(before), lambda: "plotting %s added %s to the run" % (kind, sorted(set(c.keys()) - set(before))))
    ctx.check(eps.numpy().tobytes() == keep, "plotting %s changed the permittivities passed in" % kind)
    new = sorted(set(plt.get_fignums()) - old)
    if not check:
        return None
    if path is not None and not new:
        return None
    ctx.check(len(new) == 1, lambda: "plotting %s opened %d figures" % (kind, len(new)))
    fig = plt.figure(new[0])
    if kind.startswith("spectr"):
        if kind in ("spectra", "spectra_half"):
            R, T = nidn.compute_spectrum(eps, c)
            R, T = np.array([float(x) for x in R]), np.array([float(x) for x in T])
        tR, tT = np.array(c.target_reflectance_spectrum), np.array(c.target_transmittance_spectrum)
        for word, prod, target in (("Reflectance", R, tR), ("Transmittance", T, tT)) + ((("Absorptance", 1 - R - T, None),) if kind == "spectrum_abs" else ()):
            ax = axes_with(ctx, fig, word)[0]
            d = by_label(ctx, ax, "%s of %s" % (word, kind))
            visible(ctx, ax, kind, False)
            ctx.check("Wavelength" in ax.get_xlabel(), "%s: axis label %r" % (kind, ax.get_xlabel()))
            want = {"Produced " + word: prod}
            if kind == "spectra_given":
                ctx.close(np.array(ax.get_ylim()), np.array(lim[word == "Transmittance"]), 1e-9, "limits of the %s axis" % word)
            if kind.startswith("spectra"):
                want["Target " + word] = target
            ctx.check(set(want) == set(d), lambda: "%s: legend %s" % (kind, sorted(d)))
            for name, val in want.items():
                ctx.close(d[name][0], wl, 1e-9, "%s: wavelengths of %s" % (kind, name))
                ctx.close(d[name][1], val, 2e-6, "%s: %s" % (kind, name))
            if kind.startswith("spectra"):
                txt = [x.get_text() for x in ax.texts]
                num = [float(x.split("=")[1]) for x in txt if "L1" in x and "=" in x]
                ctx.check(len(num) == 1 and abs(num[0] - np.abs(prod - target).mean()) <= 6e-5, lambda: "%s: %s, mean deviation of the %s is %g" % (kind, txt, word, np.abs(prod - target).mean()))
    elif kind == "losses":
        d = by_label(ctx, fig.axes[0], kind)
        visible(ctx, fig.axes[0], kind)
        for name, key in (("L1", "L1_errs"), ("Loss", "loss_log"), ("Weighted Average Loss", "weighted_average_log")):
            ctx.check(name in d, lambda: "legend %s" % sorted(d))
            ctx.close(d[name][1], c.results[key], 1e-9, "plotted %s" % key)
            ctx.close(np.diff(d[name][0]), np.ones(len(d[name][0]) - 1), 1e-9, "iterations of %s" % key)
    elif kind in ("model", "eps"):
        ctx.check(len(calls) == 1, "%d grids drawn" % len(calls))
        g = as_grid(ctx, calls[0], n, kind)
        ctx.close(g, np.abs(e.mean(-1)) if kind == "model" else np.sqrt((np.abs(e) ** 2).sum(-1)), 3e-6 * (1 + np.abs(e).max()), "permittivities drawn by the %s plot" % kind)
    elif kind.startswith("perfreq"):
        sel = list(range(min(4, nf))) if kind == "perfreq" else sel
        ctx.check(len(calls) == 2 * len(sel), lambda: "%d grids drawn for %d frequencies" % (len(calls), len(sel)))
        # in the order of the figure, each with the label of its colour bar
        cl = sorted(calls, key=lambda x: (-round(x[0].get_subplotspec().get_position(fig).y0, 6), round(x[0].get_subplotspec().get_position(fig).x0, 6)))
        parts = {"real": [], "imaginary": []}
        for x in cl:
            ctx.check(x[6].colorbar is not None, "no colour bar for %r" % x[0].get_title())
            lab = (x[6].colorbar.ax.get_ylabel().split() or [""])[0].lower()
            ctx.check(lab in parts, lambda: "colour bar labelled %r" % lab)
            parts[lab].append(x)
        ctx.check(len(parts["real"]) == len(sel) == len(parts["imaginary"]), lambda: "%d real and %d imaginary grids for %d frequencies" % (len(parts["real"]), len(parts["imaginary"]), len(sel)))
        for j, f in enumerate(sel):
            for part, name in ((e[..., f].real, "real"), (e[..., f].imag, "imaginary")):
                call = parts[name][j]
                g = as_grid(ctx, call, n, kind)
                ctx.close(g, part, 3e-6 * (1 + np.abs(e).max()), "%s part drawn for frequency %d" % (name, f))
                num = [float(s) for s in call[0].get_title().replace("=", " ").replace("um", " ").split() if s.replace(".", "").isdigit()]
                ctx.check(len(num) == 1 and abs(num[0] - wl[f]) <= 0.0051, lambda: "title %r for wavelength %g" % (call[0].get_title(), wl[f]))
                whole = e.real if name == "real" else e.imag
                # (a range of one value is widened by the colour bar)
                lim = call[5] if whole.min() == whole.max() else call[6].get_clim()
                ctx.close(np.array(lim, float), np.array([whole.min(), whole.max()]), 1e-5 * (1 + np.abs(e).max()), "colour range of the %s part" % name)
    elif kind.startswith("material"):
        skip = ["germanium", "silicon_nitride"] if kind == "material_skip" else []
        names = sorted(m for m in mats.tables() if m not in skip)
        spec = np.array([[mats.expected(m, f)[0] for f in c.target_frequencies] for m in names])
        dist = np.abs(e[..., None, :] - spec).mean(-1)
        ctx.check(len(calls) == (1 if kind == "material" else 2), "%d grids drawn" % len(calls))
        g = as_grid(ctx, calls[0], n, kind)
        bars = [(ax, dict(zip(np.round(ax.get_yticks(), 6), [x.get_text() for x in ax.get_yticklabels()]))) for ax in fig.axes]
        bars = [b for _, b in bars if set(b.values()) & set(names)]
        ctx.check(len(bars) == 1 and sorted(bars[0].values()) == names, lambda: "colour bar %s" % bars)
        # the materials can be told apart by their colour
        cm = calls[0][6]
        ctx.check(len({tuple(cm.cmap(float(cm.norm(v)))) for v in bars[0]}) == len(names), "%s: two materials share a colour" % kind)
        for i in np.ndindex(*n):
            m = bars[0].get(round(float(g[i]), 6))
            ctx.check(m in names and dist[i][names.index(m)] <= dist[i].min() + 2e-6 * (1 + np.abs(e).max()), lambda: "point %s drawn as %s, distances %s" % (i, m, dict(zip(names, dist[i].tolist()))))
        if kind != "material":
            g = as_grid(ctx, calls[1], n, kind)
            ctx.close(g, dist.min(-1), 3e-6 * (1 + np.abs(e).max()), "distances drawn")
    elif kind.startswith("point"):
        if kind in ("point_eps", "point_array", "point_list"):
            e = e[::-1]
        names = sorted(mats.tables())
        spec = {m: np.array([mats.expected(m, f)[0] for f in c.target_frequencies]) for m in names}
        if kind == "point_one":
            cmp = ["zinc_oxide"]
        elif kind == "point_many":
            cmp = ["germanium", "titanium_oxide"]
        else:
            d = np.array([np.abs(e - spec[m]).mean(-1) for m in names])
            gap = np.sort(d, 0)
            cmp = None if (gap[1] - gap[0]).min() < 1e-5 else sorted({names[i] for i in d.argmin(0).ravel()})
        ax, ax2 = axes_with(ctx, fig, "Real")[0], axes_with(ctx, fig, "Imaginary")[0]
        count = int(np.prod(n)) + (len(cmp) if cmp else 0)
        if cmp is not None:
            ctx.check(len(lines(ax)) == count and len(lines(ax2)) == count, lambda: "%d and %d lines for %d points and %d materials" % (len(lines(ax)), len(lines(ax2)), int(np.prod(n)), len(cmp)))
        visible(ctx, ax, kind)
        visible(ctx, ax2, kind)
        for i in np.ndindex(*n):
            have_line(ctx, ax, wl, e[i].real, "real part at %s" % (i,))
            have_line(ctx, ax2, wl, e[i].imag, "imaginary part at %s" % (i,))
        for m in cmp or []:
            have_line(ctx, ax, wl, spec[m].real, "real part of %s" % m)
            have_line(ctx, ax2, wl, spec[m].imag, "imaginary part of %s" % m)
        for a, part in ((ax, np.real), (ax2, np.imag)):
            txt = {x.get_text().strip(): x.get_position()[1] for x in a.texts}
            for m in cmp or []:
                ctx.check(m in txt and abs(txt[m] - part(spec[m])[0]) < 1e-9 + 1e-6 * abs(part(spec[m])[0]), lambda: "%s is not labelled at its value: %s" % (m, txt))
        leg = ax.get_legend()
        if leg is not None:
            from matplotlib.colors import to_hex

            for t_, h in zip(leg.get_texts(), leg.legend_handles):
                num = [int(q) for q in "".join(ch if ch.isdigit() else " " for ch in t_.get_text()).split()]
                i = (num[1], num[2], num[0])
                m = [l for l in lines(ax) if to_hex(l[2]) == to_hex(h.get_color())]
                ctx.check(any(np.allclose(l[1], e[i].real, rtol=2e-6) for l in m), lambda: "legend entry %r has the colour of another line" % t_.get_text())
    ctx.trace()
    return fig


def fingerprint(fig):
    return [(ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), [(x.tolist(), y.tolist(), c, s) for x, y, c, s in lines(ax)], len(ax.collections), [t.get_text() for t in ax.texts]) for ax in fig.axes]


def run(s, ctx):
    import torch
    from matplotlib import pyplot as plt

    nidn = nid.nidn
    k = s["k"]
    plt.close("all")
    if k == "plots":
        for kind in KINDS[4 * s["g"] : 4 * s["g"] + 4]:
            c = make(s["n"], s["nf"], s["type"], s["dist"], solver=s.get("solver", "TRCWA"), wide=s.get("wide", False))
            draw(ctx, kind, c)
            ctx.state(kind, tuple(s["n"]), s["nf"], s["type"], s["dist"], s.get("solver"), s.get("wide"))
            ctx.outcome((kind, s["nf"]))
            plt.close("all")
    elif k == "seq":
        runs = [make([1, 1, 2], 3, number=1), make([2, 1, 3], 4, number=2), make([1, 2, 1], 2, "classification", number=3)]
        figs = []
        for i, kind in enumerate(s["seq"]):
            f = draw(ctx, kind, runs[i])
            figs.append((f, fingerprint(f)))
        for (f, fp), kind in zip(figs, s["seq"]):
            ctx.check(f.number in plt.get_fignums() and fingerprint(f) == fp, "the figure of %s changed with a later plot" % kind)
        ctx.state("seq", tuple(s["seq"]))
        ctx.outcome(tuple(s["seq"]))
    elif k == "file":
        c = make([1, 2, 2], 2)
        with tempfile.TemporaryDirectory(prefix="c22-") as tmp:
            draw(ctx, s["kind"], c, path=tmp)
            f = os.listdir(tmp)
            ctx.check(len(f) == 1, "%s saved %s" % (s["kind"], f))
            im = plt.imread(os.path.join(tmp, f[0]))
            ctx.check(im.size > 0 and float(im.std()) > 0, "%s: empty image" % f)
            if s["kind"].startswith("spectr"):
                os.mkdir(tmp + "/b")
                fn = nidn.plot_spectra if s["kind"].startswith("spectra") else nidn.plot_spectrum
                z = torch.tensor([0.2, 0.3])
                a = dict(prod_R_spectrum=z, prod_T_spectrum=z) if fn is nidn.plot_spectra else dict(R_spectrum=z, T_spectrum=z)
                fn(c, save_path=tmp + "/b", filename="my name", **a)
                ctx.check(os.listdir(tmp + "/b") == ["my name.png"], lambda: "file name: %s" % os.listdir(tmp + "/b"))
        ctx.state("file", s["kind"])
        ctx.outcome(("file", s["kind"]))
    elif k == "all":
        c = make(s["n"], s["nf"], s["type"])
        for q in c.results:
            # also runs of which every iteration failed
            c.results[q] = (c.results[q] * 7)[: s["its"]]
        before = {q: canon(v) for q, v in c.items()}
        with tempfile.TemporaryDirectory(prefix="c22-") as tmp:
            os.mkdir(tmp + "/cwd")
            old = os.getcwd()
            os.chdir(tmp + "/cwd")
            try:
                for target in (tmp + "/a/b/c", tmp + "/a"):
                    nidn.save_all_plots(c, target)
                    ctx.op()
                    f = [x for x in os.listdir(target) if os.path.isfile(os.path.join(target, x))]
                    stems = sorted(x for x in f)
                    for stem in ("spectra", "loss", "model_grid.", "model_grid_per_freq", "material_grid", "eps_per_point"):
                        ctx.check(sum(stem in x for x in f) == 1, lambda: "no single plot %s among %s" % (stem, stems))
                    ctx.check(len(f) == 6, lambda: "files %s" % stems)
                    for x in f:
                        ctx.check(plt.imread(os.path.join(target, x)).size > 0, "unreadable %s" % x)
                ctx.check(os.listdir(tmp + "/cwd") == [] and sorted(os.listdir(tmp)) == ["a", "cwd"], "plots outside the folder")
            finally:
                os.chdir(old)
        for q, v in before.items():
            ctx.check(canon(c[q]) == v, lambda: "saving all plots changed entry %s" % q)
        ctx.check(set(c.keys()) == set(before), "saving all plots added entries to the run")
        ctx.trace()
        ctx.state("all", str(s))
        ctx.outcome(("all", s["nf"]))
    elif k == "print":
        st = s["stage"]
        if st in ("default", "frequencies", "list", "none", "long"):
            c = nidn.load_default_cfg()
            if st == "frequencies":
                nidn.get_frequency_points(c)
            if st == "list":
                for i in range(7):
                    c["extra%d" % i] = [[i, 2.5], "x"] if i % 3 == 1 else i
                c.array = np.array([1.5, 2.5])
            if st == "long":
                # values longer than a column, in every column
                for i in range(9):
                    c["entry_with_a_very_long_name_%d" % i] = ["a value that is longer than the column %d" % i, 0.1234567890123456 + i, 10**22 + i][i // 3]
                    c["short%d" % i] = "x" * (10 + i)
            if st == "none":
                c.model, c.nothing = None, None
        elif st == "cls":
            c = make([1, 1, 2], 2, "classification")
        else:
            c = nid.cfg(N_freq=2, iterations=2, TRCWA_NG=1, n_neurons=4, hidden_layers=1, target_reflectance_spectrum=[0.5, 0.4], target_transmittance_spectrum=[0.4, 0.3])
            nidn.run_training(c)
            if st == "loaded":
                with tempfile.TemporaryDirectory(prefix="c22-") as tmp:
                    os.makedirs(tmp + "/x")
                    old = os.getcwd()
                    os.chdir(tmp + "/x")
                    try:
                        nidn.save_run(c, "f")
                        p = [os.path.join(d, f) for d, _, fs in os.walk(tmp) for f in fs]
                        c = nidn.load_run(p[0])
                    finally:
                        os.chdir(old)
        before = {q: canon(v) for q, v in c.items()}
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            nidn.print_cfg(c)
        ctx.op()
        txt = " ".join(buf.getvalue().split())
        for q, v in c.items():
            if isinstance(v, nidn.MaterialCollection):
                continue
            pos = [i for i in range(len(txt)) if txt.startswith(q, i)]
            if isinstance(v, (list, np.ndarray, str, int, float)) and not isinstance(v, bool):
                want = " ".join(str(v).split())
                ok = any(txt[i + len(q) :].lstrip(" :").startswith(want) for i in pos)
            else:
                ok = bool(pos)
            ctx.check(ok, lambda: "entry %s = %s is not printed" % (q, str(v)[:80]))
            ctx.trace()
        for q, v in before.items():
            ctx.check(canon(c[q]) == v, lambda: "printing changed entry %s" % q)
        ctx.state("print", st)
        ctx.outcome(("print", st))
    plt.close("all")
