"""C07: the FDTD solver simulates the configured scene."""
import itertools
import numpy as np
from mc import nid, fd, fdtdref as fr, trc

ID = "C07"
TECHNIQUE = "exhaustive enumeration of configurations; detector recordings and spectra of the real solver compared step by step with an independent numpy model of scene construction, Yee stepping and coefficient extraction"
ASSUMPTIONS = [
    "configuration alphabets are finite; positions that fall within 1 % of a cell boundary by rounding are left out unless exactly representable",
    "pulsed sources are compared on the recordings only",
    "a point source lies inside the three cells of the strip",
]
TIMEOUT = 300
E = {"v": 1.0, "d": 4.0, "s": 2.25, "l": [3.0, 0.5], "m": [2.0, 2.0], "H": 12.0, "w": [2.25, 0.004], "M": [1.5, 9.0], "e": [1.02, 0.0], "x": [18.0, 0.05]}


def scenarios(tier):
    quick = tier == "quick"
    out = []
    dropped = []

    def add(k, s, **p):
        thick = p.get("thick")
        sc = dict(k=k, s=s, p=p)
        if k in ("rec",) and thick and len(thick) == 1 and len(s) > 1:
            p["thick"] = thick * len(s)  # the set-up function wants one per layer
        if fd.safe(fd.params(sc), len(s)):
            out.append(sc)
        else:
            dropped.append(sc)

    th = {1: [[0.32], [0.5]], 2: [[0.32, 0.47], [0.5]], 3: [[0.32, 0.23, 0.47], [0.3, 0.16, 0.51]]}
    # recordings: layer order, thickness and loss
    mats = "dslm"
    for n in (1, 2, 3):
        for s in itertools.product(mats, repeat=n):
            if n == 3 and len(set(s)) < 3 and quick:
                continue
            for t in th[n]:
                if n == 3 and quick and t is th[3][1]:
                    continue
                add("rec", "".join(s), thick=t)
    # recordings: every other entry, one at a time and pairs of neighbours
    for pml in (0.73, 1.5, 2.04):
        for free in (0.58, 1.0, 1.47):
            for gap in (1, 2, 4):
                add("rec", "dl", thick=[0.32, 0.47], pml=pml, free=free, gap=gap, src=[pml + 0.15, 0.15])
    for x in (0.85, 1.15, 1.65, 1.95, 2.25):
        for y in (0.05, 0.15, 0.25):
            for st in ("line", "point"):
                add("rec", "d", thick=[0.5], src=[x, y], stype=st)
    for pulse in ("continuous", "hanning", "ricker"):
        for st in ("line", "point"):
            for rng in ([1e-6, 2e-6], [0.6e-6, 1.1e-6], [2.1e-6, 4.7e-6]):
                for mp in (7, 10, 13):
                    add("rec", "sl", thick=[0.33, 0.52], pulse=pulse, stype=st, range=rng, min_pts=mp)
    # deep stacks, extreme materials and thicknesses
    TH = [0.32, 0.23, 0.47, 0.15, 0.58, 0.36, 0.21, 0.45]
    for n in (4, 5, 6, 8):
        w = "dlsHmwxe"
        for r in range(3 if quick else 8):
            for m in range(2):
                q = (w[r:] + w[:r])[:n]
                add("rec", q[::-1] if m else q, thick=TH[:n] if not m else TH[-n:], niter=190)
        add("rec", "dl" * (n // 2) + "s" * (n % 2), thick=[0.23], niter=150)
    for m in "vHwMex":
        for t in ([0.12], [0.55], [1.83]):
            add("rec", m, thick=t, niter=150)
        for o in "dl":
            add("rec", m + o, thick=[0.13, 0.57])
            add("rec", o + m, thick=[0.77, 0.12])
    for pml, free, gap in ((3.05, 2.55, 8), (0.73, 3.15, 15), (0.55, 0.26, 0), (1.12, 0.97, 0), (2.25, 2.55, 20)):
        for sx in (pml + 0.05, pml + free / 2 + 0.013):
            add("rec", "dl", thick=[0.32, 0.47], pml=pml, free=free, gap=gap, src=[sx, 0.15], niter=140)
    for rng in ([4e-6, 9e-6], [0.35e-6, 0.8e-6], [1.3e-6, 1.4e-6]):
        for mp in (5, 10, 22):
            add("rec", "ls", thick=[0.33, 0.52], range=rng, min_pts=mp, niter=150)
    add("rec", "dls", thick=[0.32, 0.23, 0.47], niter=700)
    # short wavelengths (fine grids) and layers of a single cell
    for rng, mp in (([0.31e-6, 0.48e-6], 10), ([0.19e-6, 0.27e-6], 10), ([0.31e-6, 0.48e-6], 40)):
        for q in ("ls", "Md", "sld"):
            for t in ([0.137, 0.221, 0.092], [0.092, 0.051, 0.137]):
                for dx in (0.0, 0.004):
                    add("rec", q, thick=[x + dx for x in t[: len(q)]], range=rng, min_pts=mp, pml=0.305, free=0.412, gap=3, src=[0.333, 0.021], niter=150)
    for t in ([0.32, 0.06, 0.07, 0.23], [0.06, 0.32, 0.055, 0.06], [0.07, 0.06, 0.12, 0.08]):
        for q in ("dlsH", "HMdl"):
            add("rec", q, thick=t, min_pts=20, niter=150)
            add("rec", q, thick=t, range=[0.5e-6, 0.9e-6], niter=150)
    # neighbouring wavelengths, many wavelengths
    for rng, nf in (([1.0e-6, 1.012e-6], 3), ([1.5e-6, 1.5001e-6], 2), ([0.45e-6, 0.62e-6], 3), ([1.0e-6, 2.0e-6], 9)):
        out.append(dict(k="disp", s="dl", nf=nf, p=dict(thick=[0.32, 0.47], niter=150, range=rng)))
    out.append(dict(k="disp", s="dl", nf=3, p=dict(thick=[0.32, 0.17], niter=400, range=[1.0e-6, 1.018e-6], min_pts=60, pml=0.41, free=0.5, gap=3, src=[0.45, 0.05])))
    out.append(dict(k="disp", s="dl", nf=4, p=dict(thick=[0.22, 0.17], niter=420, range=[0.602e-6, 0.615e-6], min_pts=50, pml=0.31, free=0.4, gap=3, src=[0.35, 0.05])))
    # spectra
    for nf in (1, 3, 5):
        for dist in ("linear", "log"):
            for shape in ([1, 1], [3, 2]):
                q = dict(k="disp", s="dl", dist=dist, nf=nf, shape=shape, p=dict(thick=[0.32, 0.47], niter=170))
                out.append(q)
    for n in (4, 6):
        add("spec", "dlsHmw"[:n], thick=TH[:n], niter=330)
        add("spec", "wmHsld"[:n], thick=[0.23], niter=330)
    for m in "vHwMx":
        add("spec", m, thick=[0.55], niter=300)
        add("spec", "d" + m, thick=[0.32, 0.13], niter=260)
    for n in (1, 2):
        for s in itertools.product("dl" if quick else "dslm", repeat=n):
            for t in th[n]:
                add("spec", "".join(s), thick=t, niter=170)
    for s in ("dls", "lds") if quick else map("".join, itertools.permutations("dls")):
        for t in ([0.32, 0.23, 0.47], [0.32]):
            add("spec", s, thick=t, niter=190)
    for st in ("line", "point"):
        for rng in ([1.2e-6, 1.9e-6], [0.7e-6, 1.3e-6]):
            add("spec", "ld", thick=[0.33, 0.52], stype=st, range=rng, niter=210)
    for pml, free, gap in ((0.73, 1.47, 4), (2.04, 0.58, 1)):
        add("spec", "dl", thick=[0.32, 0.47], pml=pml, free=free, gap=gap, src=[pml + 0.15, 0.15], niter=200)
    # different permittivity at each frequency, both distributions
    for d in ("linear", "log"):
        out.append(dict(k="disp", s="dl", t="sm", u="ld", dist=d, p=dict(thick=[0.32, 0.47], niter=170)))
    if not quick:
        for n in (1, 2, 3, 4):
            for s in itertools.product("dl", repeat=n):
                for mp in (10, 14):
                    add("spec", "".join(s), thick=[0.27, 0.31, 0.19, 0.34][:n], min_pts=mp, niter=260)
    return out


def bounds(tier):
    return "all layer sequences of 4 materials up to 3 layers x thickness lists; all combinations of 3 PML x 3 free-space x 3 detector distances; source positions x kinds; pulses x wavelength ranges x resolutions; stacks of up to 8 layers, ten materials, thicknesses of 1..18 cells; wavelengths from 0.19 um and down to 1e-10 m apart; recordings of 90..700 steps, spectra of 170..330 steps and 1..9 frequencies"


def run(s, ctx):
    import torch
    from nidn.fdtd_integration.init_fdtd import init_fdtd
    from nidn.fdtd_integration.compute_spectrum_fdtd import _get_detector_values
    from nidn.fdtd_integration.compute_fdtd_grid_scaling import _compute_fdtd_grid_scaling

    p = fd.params(s)
    n = len(s["s"])
    eps = [trc.cplx(E[ch]) for ch in s["s"]]
    full = dict(p)
    if len(p["thick"]) == 1 and n > 1:
        full["thick"] = p["thick"] * n
    if s["k"] == "rec":
        wl = fd.wavelengths(p, 2)[0]
        c = fd.cfg(p, n, 1)
        c.FDTD_grid_scaling = _compute_fdtd_grid_scaling(c)
        ctx.close(float(c.FDTD_grid_scaling), fr.scaling(p["range"][0], p["min_pts"]), 1e-9, "grid points per micrometre")
        for inc in (False, True):
            e = torch.tensor(np.array(eps)[None, None]) if inc else None
            g, t, r = init_fdtd(c, include_object=inc, wavelength=wl, permittivity=e)
            g.run(p["niter"], progress_bar=False)
            ctx.op(p["niter"])
            rec = _get_detector_values(t, r)
            ref, info = fr.record(full, wl, eps if inc else None)
            ctx.check(g.Nx == info["nx"], lambda: "grid length %d, expected %d" % (g.Nx, info["nx"]))
            for d, name in ((0, "transmission"), (1, "reflection")):
                ctx.close(rec[d], ref[d], 1e-6, "%s recording %s stack" % (name, "with" if inc else "without"))
                ctx.state(np.round(ref[d], 8).tobytes())
            ctx.trace()
            ctx.outcome((inc, round(float(np.abs(ref).sum()), 5)))
        return
    if s["k"] == "disp":
        rows = [s["s"], s["t"], s["u"]] if "t" in s else (["dl", "sm", "wH", "ld", "ms"] * 2)[: s["nf"]]
        e = np.array([[trc.cplx(E[ch]) for ch in q] for q in rows]).T
    else:
        e = np.array(eps)[:, None].repeat(2, 1)
    nf = e.shape[1]
    dist = s.get("dist", "linear")
    R, T = fd.sim(e, p, dist, s.get("shape", [1, 1]))
    ctx.op(2 * nf * p["niter"])
    for i, wl in enumerate(fd.wavelengths(p, nf, dist)):
        a, _ = fr.record(full, wl, None)
        b, _ = fr.record(full, wl, e[:, i])
        t, r, tot = fr.coefficients(a, b, wl, p["min_pts"])
        ctx.close(R[i], r, 1e-6, "reflectance at %.3g m" % wl)
        ctx.close(T[i], t, 1e-6, "transmittance at %.3g m" % wl)
        ctx.state("spec", round(r, 6), round(t, 6))
        ctx.outcome((round(r, 3), round(t, 3)))
        ctx.trace()
