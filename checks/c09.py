"""C09: coefficients from detector recordings."""
import numpy as np
from mc import nid

ID = "C09"
TECHNIQUE = "exhaustive enumeration of recording lengths, delays, phases, amplitudes and transients; the real coefficient extraction run on every recording, judged by the known steady-state amplitudes and by exact scaling, delay and normalisation laws"
ASSUMPTIONS = [
    "recordings are sinusoidal after a transient of at most one and a half observation windows (a window is 3 x grid points per wavelength)",
    "accuracy is demanded from five windows on (seven for the slowest transient), within 2.5 % plus one sample per period (the resolution of the peak search); for shorter recordings only that a finite, non-negative result comes out",
]
KNOWN = "window-shorter-than-period:range=0.25-2um:min_gridpoints=10:wavelength=2um:length=725"
CFG = []
KINDS = {"step": 1.0, "ramp": 0.6, "slow": 1.5, "exp": 0.4, "over": 0.4, "beat": 0.5, "stair": 0.95}
AMPS = [[0.81, 0.15], [0.3, 0.62], [0.04, 0.93], [1.0, 0.0], [0.0, 1.0], [0.25, 0.25], [0.6, 0.43]]
PHASES = [0.0, 1.0, 2.5, 4.0, 5.3]


def env(kind, m, tau):
    m = np.maximum(m, 0.0)
    if kind == "step":
        return np.ones_like(m)
    if kind in ("ramp", "slow"):
        return np.minimum(m / tau, 1)
    if kind == "stair":  # echoes of a resonator, one per window
        return np.where(m < tau, 0.55, np.where(m < 2 * tau, 0.8, 1.0))
    if kind == "exp":
        return 1 - np.exp(-m / tau)
    if kind == "over":
        return 1 + 0.5 * np.exp(-m / tau)
    return 1 - np.exp(-m / tau) * np.cos(m / tau * 2)


def sig(n, A, d, ph, P, kind, tau):
    m = np.arange(n) - d
    return A * env(kind, m, tau) * np.sin(2 * np.pi * m / P + ph) * (m >= 0)


def geometry(s):
    P = s["wl"] * s["mp"] * np.sqrt(2)
    return P, int(3 * s["mp"] * s["wl"])


def signals(s, n, amp=None, pre=0):
    """[free, material] for transmission and reflection"""
    P, W = geometry(s)
    T, R = amp or s["amp"]
    tau = KINDS[s["kind"]] * W
    ph = s["ph"]
    tf = sig(n, 1.0, 5, ph, P, "step" if s["kind"] == "step" else "ramp", 0.3 * W)
    tm = sig(n, np.sqrt(T), 9 + s.get("lag", 0), ph + 0.3, P, s["kind"], tau)
    rf = sig(n, 1.0, 2, ph, P, "step" if s["kind"] == "step" else "ramp", 0.3 * W)
    rr = sig(n, np.sqrt(R), 11 + s.get("lag", 0), ph + 1.3, P, s["kind"], tau)
    return [tf, tm], [rf, rf + rr]


def call(s, t, r):
    import torch
    from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import (
        calculate_transmission_reflection_coefficients as calc,
    )

    if not CFG:
        CFG.append(nid.cfg(solver="FDTD"))
    c = CFG[0]
    c.FDTD_min_gridpoints_per_unit_magnitude = s["mp"]
    c.physical_wavelength_range = s.get("range") or [10e-6 / s["mp"], 1e-4]
    T, R = calc([torch.tensor(x) for x in t], [torch.tensor(x) for x in r], s["wl"] * 1e-6, c)
    return float(T), float(R)


def scenarios(tier):
    quick = tier == "quick"
    out = []
    geo = [(10, 1.0), (8, 2.0)] if quick else [(10, 1.0), (8, 2.0), (10, 1.3), (13, 1.0), (20, 1.5), (8, 5.0)]
    for kind in KINDS:
        for ph in PHASES:
            for i, amp in enumerate(AMPS):
                for mp, wl in geo:
                    if quick and (mp, wl) != geo[0] and i > 0:
                        continue
                    out.append(dict(k="lens", mp=mp, wl=wl, kind=kind, ph=ph, amp=amp, step=5 if quick else 1 if mp * wl < 20 else 4))
    for kind in KINDS:
        for mp, wl in geo:
            out.append(dict(k="all", mp=mp, wl=wl, kind=kind, ph=1.7, amp=[0.5, 0.4]))
            for ph in PHASES[:2] if quick else PHASES:
                for k in ("delay", "scale", "norm"):
                    out.append(dict(k=k, mp=mp, wl=wl, kind=kind, ph=ph, amp=[0.55, 0.35]))
    for mp, wl in geo:
        for ph in PHASES:
            out.append(dict(k="same", mp=mp, wl=wl, kind="step", ph=ph, amp=[0.5, 0.4]))
    for n in (1, 2, 3, 30, 61, 100, 200, 333):
        out.append(dict(k="zero", mp=10, wl=1.0, kind="exp", ph=0.4, amp=[0.5, 0.4], n=n))
    out.append(dict(k="known", mp=10, wl=2.0))
    return out


def bounds(tier):
    return "7 transients x 5 phases x 7 pairs of coefficients x %s geometries, recording lengths up to 12 windows (every length for some, every fifth otherwise); all delays up to 2 windows; 9 scalings; 60 sums from 0.97 to 1.08" % ("2" if tier == "quick" else "6")


def run(s, ctx):
    k = s["k"]
    if k == "known":
        # grid four times finer than FDTD_min_gridpoints_per_unit_magnitude: the window covers half a period
        P = 2.0 * 40 * np.sqrt(2)
        mk = lambda A, d, ph: sig(725, A, d, ph, P, "step", 1)
        rf = mk(1.0, 2, 4.0)
        T, R = call(dict(mp=10, wl=2.0, range=[0.25e-6, 2e-6]), [mk(1.0, 5, 4.0), mk(0.9, 9, 4.3)], [rf, rf + mk(np.sqrt(0.15), 9, 5.3)])
        ctx.op()
        ctx.check(abs(T - 0.81) < 0.1 and abs(R - 0.15) < 0.03, lambda: "T=%g R=%g instead of 0.81 and 0.15 from recordings on a grid finer than the minimum" % (T, R), KNOWN)
        return
    P, W = geometry(s)
    tol = 0.025 + 1.0 / P
    if k in ("lens", "all"):
        N = 12 * W
        t, r = signals(s, N)
        T0, R0 = s["amp"]
        for n in range(8 if k == "lens" else 1, N, s["step"] if k == "lens" else 1):
            tt, rr = [x[:n] for x in t], [x[:n] for x in r]
            silent = [(x[0] ** 2).mean() <= 1e-15 for x in (tt, rr)]
            try:
                T, R = call(s, tt, rr)
            except ValueError:
                ctx.check(any(silent), "recording of %d steps was rejected" % n)
                continue
            ctx.op()
            ctx.check(not any(silent), "a silent free-space recording of %d steps was accepted" % n)
            ctx.check(np.isfinite(T) and np.isfinite(R) and T >= 0 and R >= 0, lambda: "length %d: T=%r R=%r" % (n, T, R))
            ctx.check(not (1 + 1e-9 < T + R < 1.05 - 1e-9), lambda: "length %d: sum %r not normalised" % (n, T + R))
            if n >= {"slow": 7, "stair": 6}.get(s["kind"], 5) * W + 15:
                sm = max(1.0, T0 + R0)
                for name, got, want in (("transmission", T, T0), ("reflection", R, R0)):
                    ok = any(abs(got - w) <= tol * want + 1e-9 for w in (want, want / sm))
                    if T0 + R0 > 0.9:  # the raw sum may have been a little above one
                        ok = ok or abs(got / (T + R) - want / (T0 + R0)) <= 2 * tol
                    ctx.check(ok, lambda: "%s coefficient %.4f for true value %.4f (length %d, %s transient, tolerance %.3f)" % (name, got, want, n, s["kind"], tol))
                ctx.trace()
            ctx.state(s["mp"], s["wl"], s["kind"], s["ph"], tuple(s["amp"]), n)
        ctx.outcome((round(T, 2), round(R, 2)))
    elif k == "delay":
        n = 7 * W + 11
        t, r = signals(s, n)
        base = call(s, t, r)
        for q in range(1, 2 * W):
            z = np.zeros(q)
            pad = lambda x: np.concatenate([z, x])
            ctx.close(call(s, [pad(x) for x in t], [pad(x) for x in r]), base, 1e-9, "delaying everything by %d steps" % q)
            ctx.close(call(s, [pad(x) for x in t], r), base, 1e-9, "delaying the transmission recordings by %d steps" % q)
            ctx.close(call(s, t, [pad(x) for x in r]), base, 1e-9, "delaying the reflection recordings by %d steps" % q)
            ctx.op(3)
            ctx.trace(3)
            ctx.state("delay", s["mp"], s["kind"], s["ph"], q)
        ctx.outcome("delay")
    elif k == "same":
        # too short for transient removal: still the exact ratio of equal-shaped recordings
        for n in range(2, 2 * W + 1):
            w = sig(n, 1.0, 0, s["ph"], P, "step", 1)
            if max(w) <= 1e-3:
                continue
            for a, b in ((0.5, 0.7), (0.9, 0.2), (0.3, 0.3)):
                ctx.close(call(s, [w, a * w], [w, w + b * w]), (a * a, b * b), 1e-5, "recordings of %d steps scaled by %g and %g" % (n, a, b))
                ctx.op()
                ctx.trace()
            ctx.state("same", s["mp"], s["wl"], s["ph"], n)
        ctx.outcome("same")
    elif k == "scale":
        for n in (2 * W - 5, 3 * W + 1, 4 * W, 7 * W + 11):
            t, r = signals(s, n, [0.3, 0.2])
            base = call(s, t, r)
            ctx.check(sum(base) < 1, "sum %g for small amplitudes" % sum(base))
            start = lambda a: [int(np.argmax(np.abs(a * x) > 1e-8)) for x in t + [r[0], r[1] - r[0]]]
            for a in (3e-7, 1e-6, 1e-5, 1e-3, 0.02, 0.5, 2.0, 30.0, 1e3):
                got = call(s, [a * x for x in t], [a * x for x in r])
                ctx.op()
                if start(a) == start(1.0):  # else a first sample is below the resolution
                    ctx.close(got, base, 1e-6, "scaling all recordings by %g" % a)
            for a in (0.1, 0.3, 0.5, 0.9):
                got = call(s, [t[0], a * t[1]], r)
                ctx.close(got, (a * a * base[0], base[1]), 1e-6, "scaling the transmitted wave by %g" % a)
                got = call(s, t, [r[0], r[0] + a * (r[1] - r[0])])
                ctx.close(got, (base[0], a * a * base[1]), 1e-6, "scaling the reflected wave by %g" % a)
                ctx.op(2)
                ctx.trace(2)
            # nothing comes through / back
            ctx.close(call(s, [t[0], 0 * t[1]], r), (0.0, base[1]), 1e-12, "silent transmission")
            ctx.close(call(s, t, [r[0], r[0]]), (base[0], 0.0), 1e-12, "silent reflection")
            ctx.state("scale", s["mp"], s["kind"], s["ph"], n)
        ctx.outcome("scale")
    elif k == "norm":
        n = 8 * W + 5
        t, r = signals(s, n)
        T1, R1 = call(s, t, r)  # raw, as their sum is below one
        ctx.check(T1 + R1 < 1, "sum of %g for 0.55 + 0.35" % (T1 + R1))
        for x in range(60):
            want = 0.97 + x * 0.11 / 59
            for share in (0.1, 0.5, 0.85):
                qt, qr = want * share / T1, want * (1 - share) / R1
                T, R = call(s, [t[0], np.sqrt(qt) * t[1]], [r[0], r[0] + np.sqrt(qr) * (r[1] - r[0])])
                ctx.op()
                f = want if 1 < want < 1.05 else 1.0
                if min(abs(want - 1), abs(want - 1.05)) < 1e-5:
                    continue
                ctx.close(T, want * share / f, 1e-6, "transmission of raw sum %g" % want)
                ctx.close(R, want * (1 - share) / f, 1e-6, "reflection of raw sum %g" % want)
                ctx.trace()
                ctx.state("norm", x, share)
        ctx.outcome("norm")
    elif k == "zero":
        n = s["n"]
        P, W = geometry(s)
        w = sig(n, 1.0, 0, 0.4, P, "step", 1)
        z = np.zeros(n)
        for a, b, c, d in [(z, w, w, w), (w, w, z, w), (z, z, z, z), (z, z, w, w), (w, w, z, z), (z, w, z, w)]:
            try:
                T, R = call(s, [a, b], [c, d])
            except ValueError:
                ctx.op()
                ctx.state("zero", n)
                continue
            ctx.fail("a silent free-space recording gave T=%g R=%g" % (T, R))
        T, R = call(s, [w, z], [w, w])
        ctx.check(T == 0 and R == 0, "silent material recordings gave T=%g R=%g" % (T, R))
        ctx.outcome("zero")
