"""C08: physical FDTD spectra."""
import itertools
import math
import numpy as np
from mc import nid, fd, ref, trc

ID = "C08"
TECHNIQUE = "exhaustive enumeration of scenes and layer sequences over a finite alphabet; the spectra of the real FDTD solver are checked against energy conservation, reciprocity, the frequency-domain solution of the discretised stack and the exact thin-film solution"
ASSUMPTIONS = [
    "continuous sources, as many time steps as the solver itself recommends plus 30 % (three times as many for layers of permittivity 9, which ring longer)",
    "grid not refined beyond FDTD_min_gridpoints_per_unit_magnitude (wavelengths from 10 grid points on)",
    "agreement with the steady state of the discretised stack within 0.015 at 30 or more grid points per vacuum wavelength (13 in the material) and 0.05 from 11.5 on (8 per wavelength in the material for permittivity above 6.25)",
    "thin-film agreement within 0.03 (0.05 for permittivity above 6.25) at 40 or more grid points per vacuum wavelength and layer faces on grid points",
]
TIMEOUT = 400
E = {"v": 1.0, "s": 2.25, "d": 4.0, "l": [3.0, 0.5], "m": [2.0, 2.0], "h": 9.0, "w": [2.25, 0.02], "M": [1.5, 6.0], "x": [1.2, 0.0], "W": [2.25, 0.1], "G": [1.5, 11.0], "D": [6.0, 1.0], "K": [3.0, 45.0]}


def discrete(eps, th, wl, S, start):
    """R, T of the steady state of the leapfrog scheme itself: layers on whole cells between two half spaces"""
    c0, sc, dx = 299792458.0, 0.99 / math.sqrt(2), 1e-6 / S
    w = 2 * np.pi * c0 / (wl * 1e-6)
    z = np.exp(-0.5j * w * sc * dx / c0)
    x = start
    edges = [int(x * S + 1e-6)]
    cells = []
    for e, t in zip(eps, th):
        x += t
        edges.append(int(x * S + 1e-6))
        cells += [complex(e)] * (edges[-1] - edges[-2])

    def k2(e):
        a = 0.5 * sc * e.imag * w * 8.8541878128e-12 * dx * 376.730313668 / e.real
        return e.real / sc**2 * (z - 1 / z) * ((1 + a) * z - (1 - a) / z)

    q = np.arccos(1 + k2(1.0 + 0j) / 2)
    q = q if q.real > 0 else -q
    after, here = np.exp(1j * q), 1.0 + 0j
    for e in [1.0 + 0j] + cells[::-1] + [1.0 + 0j]:
        after, here = here, (k2(e) + 2) * here - after
    a, b = np.linalg.solve(np.array([[1, 1], [np.exp(1j * q), np.exp(-1j * q)]]), [here, after])
    return abs(b / a) ** 2, abs(1 / a) ** 2


def steps(p, s):
    th = p["thick"] * len(s) if len(p["thick"]) == 1 else p["thick"]
    n = max(math.sqrt(trc.cplx(E[c]).real) for c in s)
    wl = p["range"][1] * 1e6
    S = max(1e-6 / (p["range"][0] * 0.1), p["min_pts"])
    return int((1.3 if n <= 2 else 3.0) * (p["free"] + 3 * sum(th) * n + 5 * wl) * math.sqrt(2) * S) + 20


def scenarios(tier):
    quick = tier == "quick"
    out = []

    def add(k, s, **p):
        q = fd.params(dict(p=p))
        p["niter"] = steps(q, s)
        sc = dict(k=k, s=s, p=p)
        if k != "tmm" or fd.safe(fd.params(sc), len(s)):
            out.append(sc)

    # vacuum stacks in all scenes
    for n, th in ((1, [0.5]), (2, [0.3]), (2, [0.25, 0.6]), (3, [0.2, 0.5, 0.3])):
        add("vac", "v" * n, thick=th)
    for n in (4, 5, 7):
        add("vac", "v" * n, thick=[0.21])
        add("vac", "v" * n, thick=[0.2, 0.35, 0.15, 0.4, 0.25, 0.1, 0.3][:n])
    for nf in (2, 3):
        add("vac", "vv", thick=[0.3, 0.4], nf=nf)
    for pml in (0.7, 1.5, 2.0):
        for free in (0.6, 1.0, 1.4):
            for gap in (1, 2, 4):
                if not quick or (pml == 1.5) + (free == 1.0) + (gap == 2) >= 1:
                    add("vac", "v", thick=[0.5], pml=pml, free=free, gap=gap, src=[pml + 0.15, 0.15])
    for st in ("line", "point"):
        for rng in ([1e-6, 1.9e-6], [1.4e-6, 2.6e-6]):
            for mp in (10, 13):
                for x in (1.6, 1.9):
                    add("vac", "vv", thick=[0.3, 0.4], stype=st, range=rng, min_pts=mp, src=[x, 0.15])
    # energy and reciprocity on coarse grids
    for n in (1, 2):
        for s in itertools.product("vsdlmhwM" if not quick else "vdlw" if n == 2 else "vdlwMx", repeat=n):
            s = "".join(s)
            if s <= s[::-1] and set(s) != {"v"}:
                add("energy", s, thick=[0.5], range=[1e-6, 1.2e-6], src=[1.7, 0.15])
                if not quick:
                    for mp in (13, 20):
                        add("energy", s, thick=[0.4], range=[1.4e-6, 1.9e-6], min_pts=mp, src=[1.7, 0.15])
    for s in (["dsl", "wdM"] if quick else map("".join, itertools.product("dslh", repeat=3))):
        if s < s[::-1]:
            add("energy", s, thick=[0.3, 0.5, 0.4], range=[1e-6, 1.2e-6], src=[1.7, 0.15])
    # exact solution
    for n in (1, 2) if quick else (1, 2, 3):
        for s in itertools.product("vsdlmhwM" if not quick or n == 1 else "vdm", repeat=n):
            s = "".join(s)
            if n > 1 and len(set(s)) < 2:
                continue
            if n == 3 and len(set(s)) < 3:
                continue
            add("tmm", s, thick=[[0.5], [0.5], [0.4]][n - 1], range=[3.6e-6, 4.0e-6], src=[1.7, 0.15])
    for s in ("dsvl", "wdsx", "sdwdsl", "xxxxx"):
        add("tmm", s, thick=[0.3, 0.2, 0.4, 0.1, 0.3, 0.2][: len(s)], range=[3.6e-6, 4.0e-6], src=[1.7, 0.15])
        if not quick:
            add("tmm", s[::-1], thick=[0.2], range=[3.6e-6, 4.0e-6], src=[1.7, 0.15])
    add("tmm", "ds", thick=[0.3, 0.8], range=[3.6e-6, 4.0e-6], src=[1.7, 0.15])
    add("tmm", "sd", thick=[0.3, 0.8], range=[3.6e-6, 4.0e-6], src=[1.7, 0.15])
    if not quick:
        for s in ("d", "l", "sm", "ld", "dls"):
            add("tmm", s, thick=[0.25], range=[2.1e-6, 2.2e-6], min_pts=20, src=[1.7, 0.1])
            add("tmm", s, thick=[0.6, 0.3, 0.5][: len(s)], range=[4.1e-6, 6e-6], src=[1.7, 0.1])
    # weak and strong losses, thick layers, several wavelengths
    for s, th in (("w", [3.0]), ("w", [5.0]), ("W", [2.0]), ("Ws", [1.5, 0.5]), ("G", [0.3]), ("K", [0.1]), ("Ks", [0.3, 0.4]), ("sK", [0.4, 0.3]), ("GM", [0.1, 0.2]), ("D", [0.4]), ("Dw", [0.3, 2.0]), ("x", [4.0])):
        add("tmm", s, thick=th, range=[3.6e-6, 4.0e-6], src=[1.7, 0.15])
    for s, th in (("d", [0.5]), ("l", [0.5]), ("wM", [1.0, 0.2]), ("sDv", [0.3, 0.2, 0.4])):
        for nf in (2, 3):
            add("tmm", s, thick=th, range=[3.6e-6, 7.0e-6], src=[1.7, 0.15], nf=nf)
            add("energy", s, thick=th, range=[1e-6, 2.1e-6], src=[1.7, 0.15], nf=nf)
    for pulse in ("hanning", "ricker"):
        p = dict(thick=[0.5], range=[1e-6, 1.2e-6], src=[1.7, 0.15], pulse=pulse, niter=300)
        out.append(dict(k="pulse", s="d", p=p))
    for e in (0.5, -2.0):
        out.append(dict(k="unstable", s="d", e=e, p=dict(thick=[0.5], range=[1e-6, 1.2e-6], src=[1.7, 0.15], niter=300)))
    # the most expensive first is not needed: batches interleave
    return out


def bounds(tier):
    return "vacuum stacks in %s scenes; all layer sequences of %s materials up to 2 layers%s for energy balance and reciprocity; sequences up to %d layers against the exact solution" % (
        ("45", "3", "", 2) if tier == "quick" else ("47", "6", " (and 3 layers of 4)", 3))


def spectrum(s, p, ctx):
    nf = p.get("nf", 1)
    e = np.array([[trc.cplx(E[c])] * nf for c in s])
    R, T = fd.sim(e, p)
    ctx.op(2 * p["niter"] * nf)
    return R, T


def run(s, ctx):
    p = fd.params(s)
    st = s["s"]
    if s["k"] == "unstable":
        sig = "unstable:eps=%g:thickness=0.5" % s["e"]
        try:
            R, T = fd.sim(np.array([[s["e"]]]), p)
        except Exception as ex:
            ctx.fail("permittivity %g: %r" % (s["e"], ex), sig)
            return
        ctx.check(0 <= R[0] <= 1.05 and 0 <= T[0] <= 1.05, lambda: "R=%g T=%g for permittivity %g" % (R[0], T[0], s["e"]), sig)
        return
    Rs, Ts = spectrum(st, p, ctx)
    wls = fd.wavelengths(p, len(Rs)) * 1e6
    th = p["thick"] * len(st) if len(p["thick"]) == 1 else p["thick"]
    S = max(1e-6 / (p["range"][0] * 0.1), p["min_pts"])
    eps = [trc.cplx(E[c]) for c in st]
    ctx.check(len(Rs) == p.get("nf", 1) and len(Ts) == len(Rs), "%d and %d results" % (len(Rs), len(Ts)))
    for R, T, wl in zip(Rs, Ts, wls):
        if s["k"] == "pulse":
            ctx.check(0 <= R and 0 <= T and R + T <= 1.05, lambda: "R=%g T=%g with a %s source" % (R, T, p["pulse"]), "pulse=%s:eps=4:thickness=0.5" % p["pulse"])
            return
        ctx.check(np.isfinite(R) and np.isfinite(T) and R >= 0 and T >= 0, lambda: "R=%r T=%r" % (R, T))
        ctx.check(R + T <= 1.05, lambda: "R+T = %g" % (R + T))
        lossless = all(np.ndim(E[c]) == 0 for c in st)
        if s["k"] == "vac":
            ctx.check(R <= 1e-6, lambda: "vacuum reflects %g" % R)
            ctx.check(0.97 <= T <= 1 + 1e-6, lambda: "vacuum transmits %g" % T)
        else:
            # the steady state of the discretised stack
            nmax = max(math.sqrt(e.real) for e in eps)
            if fd.safe(p, len(st)) and wl * S >= 11.5 and (nmax <= 2.5 or wl * S / nmax >= 8):
                r, t = discrete(eps, th, wl, S, p["pml"] + p["free"])
                tol = 0.015 if wl * S >= 30 and wl * S / nmax >= 13 else 0.05
                ctx.close(R, r, tol, "reflectance of %s at %g um against the discretised stack" % (st, wl))
                ctx.close(T, t, tol, "transmittance of %s at %g um against the discretised stack" % (st, wl))
                ctx.trace()
            if s["k"] == "tmm":
                er, et = ref.tmm(eps, th, 1.0, 1.0, 1 / wl, q=None)
                if sum(th) <= 1.6:
                    tol = 0.03 if nmax <= 2.5 else 0.05
                    ctx.close(R, er, tol, "reflectance of %s" % st)
                    ctx.close(T, et, tol, "transmittance of %s" % st)
                    ctx.trace()
            elif lossless:
                ctx.check(R + T >= 0.95, lambda: "lossless stack %s: R+T = %g" % (st, R + T))
        ctx.outcome((round(float(R), 3), round(float(T), 3)))
    if s["k"] == "energy" and st != st[::-1]:
        q = dict(p)
        q["thick"] = p["thick"][::-1]
        R2, T2 = spectrum(st[::-1], q, ctx)
        ctx.close(T2, Ts, 0.03, "transmittance of the reversed stack %s" % st)
        if all(np.ndim(E[c]) == 0 for c in st):
            ctx.close(R2, Rs, 0.05, "reflectance of the reversed lossless stack %s" % st)
        ctx.trace()
    ctx.state(s["k"], st, str(sorted(s["p"].items())))
