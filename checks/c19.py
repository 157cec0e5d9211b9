"""C19: frequency points."""
import itertools
import numpy as np
from mc import nid

ID = "C19"
TECHNIQUE = "exhaustive enumeration of wavelength ranges, numbers of points and distributions; every returned array compared with the closed form, and the points used by training compared with the reported ones"
ASSUMPTIONS = ["wavelengths from a finite set between 0.1 nm and 2 m, up to 400 points; relative tolerance 1e-9"]
WL = [1e-10, 1e-8, 3e-8, 1e-7, 2.5e-7, 3e-7, 0.5e-6, 0.9e-6, 1e-6, 1.0000001e-6, 1.5e-6, 2e-6, 3e-6, 5.123e-6, 1e-5, 3e-5, 4.2e-5, 1e-4, 1e-3, 0.05, 2.0]
NS = list(range(1, 26)) + [31, 40, 64, 100, 101, 400]


def scenarios(tier):
    out = []
    wl = WL if tier == "quick" else sorted(set(WL + [x * m * 1e-6 for x in (0.01, 0.1, 1, 10, 100) for m in (1.1, 1.7, 2.3, 4.4, 7.7, 9.9)]))
    for lo, hi in itertools.combinations(wl, 2):
        out.append(dict(k="pts", lo=lo, hi=hi))
    for i in range(len(WL)):
        out.append(dict(k="conv", i=i))
    for d in ("", "lin", "Linear", "LOG", "logarithmic", "linear ", "lg", None, 1):
        out.append(dict(k="bad", d=d))
    for n in (1, 2, 3, 5):
        for d in ("linear", "log"):
            for solver in ("TRCWA", "FDTD"):
                for typ in ("regression", "classification"):
                    out.append(dict(k="train", n=n, d=d, solver=solver, type=typ))
    for a in itertools.product(range(3), repeat=3):
        out.append(dict(k="hist", seq=list(a)))
    return out


def bounds(tier):
    return "all ordered pairs of %d wavelengths x %d numbers of points x 2 distributions; conversions at %d values; 32 training set-ups; all sequences of 3 configurations" % (21 if tier == "quick" else 51, len(NS), len(WL))


def exact(lo, hi, n, d):
    a, b = 1e-6 / hi, 1e-6 / lo
    if n == 1:
        return np.array([a])
    i = np.arange(n) / (n - 1)
    return a + (b - a) * i if d == "linear" else a * (b / a) ** i


def judge(ctx, f, lo, hi, n, d, what):
    f = np.asarray(f, float)
    ctx.check(f.shape == (n,), lambda: "%s: %s points, expected %d" % (what, f.shape, n))
    ctx.check(bool((f > 0).all()) and bool((np.diff(f) > 0).all()), lambda: "%s: not positive and ascending: %s" % (what, f[:5]))
    e = exact(lo, hi, n, d)
    ctx.close(f / e, np.ones(n), 1e-9, "%s: points relative to expectation (range %g..%g, %d, %s)" % (what, lo, hi, n, d))
    ctx.op()


def run(s, ctx):
    nidn = nid.nidn
    k = s["k"]
    if k == "pts":
        for n in NS:
            for d in ("linear", "log"):
                f = nidn.compute_target_frequencies(s["lo"], s["hi"], n, d)
                judge(ctx, f, s["lo"], s["hi"], n, d, "compute_target_frequencies")
                c = nid.cfg(physical_wavelength_range=[s["lo"], s["hi"]], N_freq=n, freq_distribution=d)
                before = {q: repr(c[q]) for q in c.keys() if q != "target_frequencies"}
                wl, f2 = nidn.get_frequency_points(c)
                judge(ctx, f2, s["lo"], s["hi"], n, d, "get_frequency_points")
                judge(ctx, c.target_frequencies, s["lo"], s["hi"], n, d, "cfg.target_frequencies")
                ctx.close(np.asarray(wl) * np.asarray(f2) / 1e-6, np.ones(n), 1e-9, "wavelength times frequency")
                ctx.check(before == {q: repr(c[q]) for q in c.keys() if q != "target_frequencies"}, "get_frequency_points changed the configuration")
                ctx.state(s["lo"], s["hi"], n, d)
                ctx.trace(3)
        ctx.outcome("pts")
    elif k == "conv":
        import torch
        from nidn.utils import convert_units as cu

        v = WL[s["i"]]
        for x in (v, v * 1e6, 1 / v):
            for y in (x, np.array([x, 2 * x]), torch.tensor([x, 3 * x])):
                e = np.asarray(y)
                for a, ref in (
                    (cu.freq_to_wl, 1 / e),
                    (cu.phys_wl_to_wl, e / 1e-6),
                    (cu.wl_to_phys_wl, e * 1e-6),
                    (cu.phys_freq_to_phys_wl, 299792458.0 / e),
                ):
                    ctx.close(np.asarray(a(y)) / ref, np.ones_like(ref), 1e-12, a.__name__)
                    ctx.op()
                for a, b in ((cu.freq_to_wl, cu.freq_to_wl), (cu.phys_wl_to_wl, cu.wl_to_phys_wl), (cu.wl_to_phys_wl, cu.phys_wl_to_wl), (cu.phys_freq_to_phys_wl, cu.phys_freq_to_phys_wl)):
                    ctx.close(np.asarray(b(a(y))) / e, np.ones_like(e), 1e-12, "%s then %s" % (a.__name__, b.__name__))
                    ctx.op()
        ctx.state("conv", v)
        ctx.trace()
    elif k == "bad":
        for n in (1, 2, 5):
            try:
                nidn.compute_target_frequencies(1e-6, 2e-6, n, s["d"])
            except Exception:
                pass
            else:
                ctx.fail("unknown distribution %r accepted" % (s["d"],))
            ctx.op()
    elif k == "train":
        lo, hi = 1e-6, 2.2e-6
        c = nid.cfg(
            physical_wavelength_range=[lo, hi], N_freq=s["n"], freq_distribution=s["d"], solver=s["solver"], type=s["type"],
            iterations=1, n_neurons=3, hidden_layers=1, FDTD_niter=3, N_layers=2,
            target_reflectance_spectrum=[0.5] * s["n"], target_transmittance_spectrum=[0.5] * s["n"],
        )
        c.target_frequencies = [7.0, 8.0]  # stale
        c = nidn.run_training(c)
        judge(ctx, c.target_frequencies, lo, hi, s["n"], s["d"], "points after training")
        ctx.state("train", s["n"], s["d"], s["solver"], s["type"])
        ctx.trace()
    elif k == "hist":
        sets = [(1e-6, 2e-6, 3, "linear"), (0.4e-6, 2e-6, 3, "log"), (1e-6, 3e-6, 4, "linear")]
        c = nid.cfg()
        old = []
        for q in s["seq"]:
            lo, hi, n, d = sets[q]
            c.physical_wavelength_range = [lo, hi]
            c.N_freq = n
            c.freq_distribution = d
            wl, f = nidn.get_frequency_points(c)
            judge(ctx, f, lo, hi, n, d, "after %s" % s["seq"])
            old.append((f, sets[q]))
        for f, (lo, hi, n, d) in old:
            judge(ctx, f, lo, hi, n, d, "kept array")
        ctx.state("hist", tuple(s["seq"]))
        ctx.trace()
