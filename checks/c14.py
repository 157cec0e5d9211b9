"""C14: classification models -> mixtures of catalogue materials."""
import itertools
import numpy as np
from mc import nid, scripted, mats
from .c13 import coords_grid, Draws

ID = "C14"
TECHNIQUE = "exhaustive enumeration of preference tables over an alphabet (every table at its own grid point), grid shapes, frequency counts and catalogues; scripted models through model_to_eps_grid compared with the mixture rule"
ASSUMPTIONS = [
    "preferences in [0,1] from a finite alphabet; catalogue reduced to 2-4 materials for the exhaustive tables, full catalogue for the others",
    "zero avoidance is off except where it is the subject",
]


def scenarios(tier):
    quick = tier == "quick"
    out = []
    # all preference tables of M materials x NF frequencies over the levels, one per grid point
    for M, NF, lv in [(2, 1, 5), (3, 1, 5), (4, 1, 4), (2, 2, 5), (3, 2, 3), (2, 3, 3)] + ([] if quick else [(4, 2, 3), (3, 3, 3), (5, 1, 4), (3, 2, 4)]):
        for drop in range(2):
            out.append(dict(k="tab", M=M, NF=NF, lv=lv, drop=drop))
    for nx, ny, nl, nf in itertools.product((1, 2, 4), (1, 2, 3), (1, 2, 3), (1, 2, 3)):
        for os_ in (1, 2):
            if nx % os_ or ny % os_:
                continue
            for th in ("one", "many"):
                for dist in ("linear", "log") if nf > 1 else ("linear",):
                    out.append(dict(k="map", n=[nx, ny, nl, nf], os=os_, th=th, dist=dist))
    for n, os_ in (([1, 1, 1, 4], 1), ([1, 2, 2, 6], 1), ([2, 2, 1, 12], 2), ([1, 1, 6, 2], 1), ([1, 1, 9, 3], 1), ([8, 8, 2, 2], 4), ([6, 9, 1, 2], 3), ([12, 12, 1, 1], 1), ([5, 7, 2, 4], 1), ([1, 1, 2, 30], 1), ([1, 2, 1, 75], 1)):
        for th in ("one", "many"):
            for dist in ("linear", "log"):
                out.append(dict(k="map", n=n, os=os_, th=th, dist=dist))
    # materials with permittivities of either sign near zero, zero avoidance on
    for nf in (1, 2, 3):
        for t in range(4):
            out.append(dict(k="zero", nf=nf, t=t))
    for nf in (1, 2, 5):
        for m in range(10):
            out.append(dict(k="clear", m=m, nf=nf, avoid=False))
            out.append(dict(k="clear", m=m, nf=nf, avoid=True))
    for z in ("lo", "hi", "mixed", "seed"):
        for nf in (1, 3):
            out.append(dict(k="noise", z=z, nf=nf))
    for nf in (1, 2, 3, 4):
        for mt in ("siren", "nerf"):
            out.append(dict(k="train", nf=nf, mt=mt))
    return out


def bounds(tier):
    return "all preference tables for (materials, frequencies, levels) up to %s with two catalogues; 1..4 x 1..3 x 1..3 layers x 1..3 frequencies with oversampling and 11 larger shapes (to 75 frequencies); permittivities near zero with zero avoidance; every material as clear preference; training with 1..4 frequencies" % ("(4,1,4),(3,2,3),(2,3,3)" if tier == "quick" else "(4,2,3),(3,3,3),(5,1,4),(3,2,4)")


def config(n, os_=1, th="one", dist="linear", skip=None, avoid=False, **over):
    nx, ny, nl, nf = n
    c = nid.cfg(
        Nx=nx, Ny=ny, N_layers=nl, N_freq=nf, eps_oversampling=os_, freq_distribution=dist,
        PER_LAYER_THICKNESS=[0.7] if th == "one" else ([0.3, 1.1, 0.45, 0.8] * 3)[:nl], avoid_zero_eps=avoid,
        type="classification", model_type="siren", physical_wavelength_range=[0.5e-6, 1.9e-6], **over
    )
    c.target_frequencies = nid.nidn.compute_target_frequencies(0.5e-6, 1.9e-6, nf, dist)
    c.material_collection = nid.nidn.MaterialCollection(c.target_frequencies, to_skip=skip)
    c.N_materials = c.material_collection.N_materials
    c.out_features = c.N_materials
    names = [x for x in mats.tables() if x not in (skip or [])]
    spec = np.array([[mats.expected(x, f)[0] for f in c.target_frequencies] for x in names])
    return c, spec


def judge(ctx, eps, ids, n, spec, pref, avoid=False, what="grid"):
    """pref [Nx,Ny,NL,M]: preference averaged over frequency (None: not judged)"""
    nx, ny, nl, nf = n
    M = len(spec)
    w = ids.detach().cpu().numpy()
    g = eps.detach().cpu().numpy()
    ctx.check(w.shape == (nx, ny, nl, M), lambda: "%s: weights have shape %s, expected %s" % (what, w.shape, (nx, ny, nl, M)))
    ctx.check(g.shape == tuple(n), lambda: "%s: grid shape %s" % (what, g.shape))
    ctx.check(bool((w >= 0).all()), "%s: negative material weight" % what)
    ctx.close(w.sum(-1), np.ones((nx, ny, nl)), 1e-9, "%s: sum of weights" % what)
    mix = np.einsum("xyzm,mf->xyzf", w, spec)
    sc = 1e-6 * (1 + np.abs(spec).max())
    if avoid:
        near = np.abs(mix.real) < 0.01 + sc
        ctx.close(np.where(near, 1j * g.imag, g), np.where(near, 1j * mix.imag, mix), sc, "%s: mixture permittivity" % what)
        ctx.check(bool((np.abs(g.real) >= 0.01 - 1e-8).all()), "%s: real part close to zero" % what)
    else:
        ctx.close(g, mix, sc, "%s: mixture permittivity" % what)
    ctx.op(g.size)
    if pref is None:
        return w
    a, b = pref[..., :, None], pref[..., None, :]
    wa, wb = w[..., :, None], w[..., None, :]
    gt = a > b + 1e-9
    ok = ~gt | (wa > wb) | (wa < 1e-300)
    ctx.check(bool(ok.all()), lambda: "%s: weights not ordered by preference at %s: preference %s weights %s" % (what, np.argwhere(~ok)[0], pref[tuple(np.argwhere(~ok)[0][:3])], w[tuple(np.argwhere(~ok)[0][:3])]))
    eq = np.abs(a - b) <= 1e-12
    ok = ~eq | (np.abs(wa - wb) <= 1e-9)
    ctx.check(bool(ok.all()), "%s: equal preference, different weight" % what)
    # a clear preference (1 against 0) must practically select that material
    top = np.sort(pref, -1)
    clear = (top[..., -1] - top[..., -2]) >= 1 - 1e-9
    if clear.any():
        ctx.check(bool((w.max(-1)[clear] > 0.999).all()), lambda: "%s: clear preference gives weight %g only" % (what, w.max(-1)[clear].min()))
    ctx.trace(nx * ny * nl)
    return w


def run(s, ctx):
    S = scripted.make()
    togrid = nid.nidn.model_to_eps_grid
    names = list(mats.tables())
    k = s["k"]
    if k == "tab":
        M, NF, lv = s["M"], s["NF"], s["lv"]
        levels = np.linspace(0, 1, lv)
        # tables differing only by the order of materials are all kept
        tabs = np.array(list(itertools.product(levels, repeat=M * NF))).reshape(-1, NF, M)
        side = int(np.ceil(np.sqrt(len(tabs))))
        tabs = np.resize(tabs, (side * side, NF, M))
        keep = [names[i] for i in ([0, 4, 6, 9, 2] if s["drop"] == 0 else [8, 1, 3, 5, 7])][:M]
        n = [side, side, 1, NF]
        c, spec = config(n, skip=[x for x in names if x not in keep])
        grid = tabs.reshape(side, side, 1, NF, M)
        tk, pts = scripted.discover(c, M)
        rank = scripted.ranker(tk)
        m = S(lambda a: grid[tuple(rank(a).T)], M)
        eps, ids = togrid(m, c)
        w = judge(ctx, eps, ids, n, spec, grid.mean(3))
        for i in range(len(tabs)):
            ctx.state("tab", s["drop"], tabs[i].tobytes())
        ctx.outcome(("tab", round(float(w.max()), 4)))
    elif k == "map":
        n = s["n"]
        c, spec = config(n, s["os"], s["th"], s["dist"])
        M = len(spec)
        tk, pts = scripted.discover(c, M)
        scripted.judge_ticks(ctx, c, tk, pts)
        A = np.stack([np.linspace(0.3, 1.9, M), np.linspace(1.5, 0.2, M), 0.004 * np.cos(np.arange(M)), 0.06 * np.sin(1 + np.arange(M) ** 2)])
        fn = lambda a: 0.5 + 0.5 * np.sin(a @ A + np.arange(M))
        eps, ids = togrid(S(fn, M), c)
        cg = coords_grid(tk, n, s["os"])
        pref = fn(cg.reshape(-1, 4)).reshape(*n, M).mean(3)
        judge(ctx, eps, ids, n, spec, pref)
        ctx.state("map", tuple(n), s["os"], s["th"], s["dist"])
        ctx.outcome("map")
    elif k == "clear":
        n = [2, 1, 2, s["nf"]]
        c, spec = config(n, avoid=s["avoid"])
        M = len(spec)
        v = np.eye(M)[s["m"]]
        eps, ids = togrid(S(lambda a: np.tile(v, (len(a), 1)), M), c)
        judge(ctx, eps, ids, n, spec, np.tile(v, (2, 1, 2, 1)), s["avoid"])
        g = eps.detach().numpy()
        e = spec[s["m"]]
        near = np.abs(e.real) < 0.02
        tol = 1e-3 * (1 + np.abs(spec).max())
        ctx.close(np.where(near, 0, g - e), np.zeros_like(g), tol, "permittivity of the preferred material")
        ctx.state("clear", s["m"], s["nf"], s["avoid"])
        ctx.outcome(("clear", names[s["m"]]))
    elif k == "zero":
        import torch

        n = [5, 5, 1, s["nf"]]
        c, spec = config(n, avoid=True, skip=names[3:])
        base = [[-0.004, 0.003, 4.0], [-3.0, 2.9, 1.5], [0.0, 0.008, -0.012], [-0.02, 0.02, 0.0]][s["t"]]
        spec = np.array([[b * (1 - 0.4 * f) + 0.2j * (f + 1) for f in range(s["nf"])] for b in base])
        c.material_collection.epsilon_matrix = torch.tensor(spec)
        levels = np.linspace(0, 1, 25)
        tab = np.stack([levels, levels[::-1], np.full(25, 0.3)], 1).reshape(5, 5, 1, 1, 3)
        tab = np.tile(tab, (1, 1, 1, s["nf"], 1))
        tk, pts = scripted.discover(c, 3)
        rank = scripted.ranker(tk)
        eps, ids = togrid(S(lambda a: tab[tuple(rank(a).T)], 3), c)
        judge(ctx, eps, ids, n, spec, tab.mean(3), True)
        ctx.check(bool((c.material_collection.epsilon_matrix.numpy() == spec).all()), "the catalogue was modified")
        ctx.state("zero", s["nf"], s["t"])
        ctx.outcome("zero")
    elif k == "noise":
        n = [2, 3, 2, s["nf"]]
        c, spec = config(n, add_noise=True, noise_scale=0.05)
        M = len(spec)
        fn = lambda a: 0.5 + 0.5 * np.sin(a @ np.ones((4, M)) + np.arange(M))
        with Draws(s["z"]):
            eps, ids = togrid(S(fn, M), c)
        judge(ctx, eps, ids, n, spec, None)
        ctx.state("noise", s["z"], s["nf"])
        ctx.outcome("noise")
    elif k == "train":
        nf = s["nf"]
        c = nid.cfg(
            N_freq=nf, N_layers=2, type="classification", model_type=s["mt"], n_neurons=4, hidden_layers=1, iterations=1,
            physical_wavelength_range=[0.5e-6, 1.9e-6], target_reflectance_spectrum=[0.5] * nf, target_transmittance_spectrum=[0.5] * nf,
            avoid_zero_eps=False,
        )
        c = nid.nidn.run_training(c)
        ctx.op()
        ctx.check(c.N_materials == len(names) and c.out_features == len(names), lambda: "%s outputs for %d materials" % (c.out_features, len(names)))
        ctx.check(len(c.results.loss_log) == 1, "training did not complete an iteration")
        eps, ids = togrid(c.model, c)
        f = nid.nidn.compute_target_frequencies(0.5e-6, 1.9e-6, nf, "linear")
        spec = np.array([[mats.expected(x, q)[0] for q in f] for x in names])
        judge(ctx, eps, ids, [1, 1, 2, nf], spec, None)
        ctx.state("train", nf, s["mt"])
        ctx.outcome("train")
