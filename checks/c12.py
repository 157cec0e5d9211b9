"""C12: training losses."""
import itertools
import numpy as np
from mc import nid

ID = "C12"
TECHNIQUE = "exhaustive enumeration of spectra, targets, exponents and options over a value grid (including the R+T=1 boundary); real loss functions and the loss log of real trainings compared with the stated formula"
ASSUMPTIONS = ["values on grids of multiples of 1/8 or 1/10, up to 120 frequencies; 1e-9 relative tolerance"]
LS = [0.5, 1.0, 2.0, 3.0, 0.25, 1.5]


def scenarios(tier):
    quick = tier == "quick"
    out = []
    g = [0.0, 0.125, 0.5, 0.625, 1.0, 1.25] if quick else [0.0, 0.125, 0.25, 0.5, 0.625, 0.875, 1.0, 1.25]
    tg = [0.0, 0.25, 0.5, 1.0]
    for R, T in itertools.product(g, repeat=2):
        for L in LS:
            for ab in (False, True):
                out.append(dict(k="one", R=R, T=T, L=L, ab=ab, tg=tg))
    # close to the boundary R + T = 1, on both sides
    for d in list(range(1, 21)) + [24, 30, 40, 48]:
        for sg in (1, -1):
            for R in (0.0, 0.25, 0.5, 1.0):
                T = 1.0 - R + sg * 2.0**-d
                if T >= 0:
                    for L in LS[1:3]:
                        for ab in (False, True):
                            out.append(dict(k="one", R=R, T=T, L=L, ab=ab, tg=[0.0, 0.5]))
    h = [0.0, 0.5, 0.75] if quick else [0.0, 0.5, 0.75, 1.0]
    for R in itertools.product(h, repeat=2):
        for L in LS[:3]:
            for ab in (False, True):
                out.append(dict(k="two", R=list(R), h=h, L=L, ab=ab))
    for R in itertools.product((0.0, 0.5, 1.0, 1.25), repeat=2):
        for ab in (False, True):
            out.append(dict(k="two", R=list(R), h=[0.0, 0.25, 1.0, 1.25], L=1.0, ab=ab))
    for R in itertools.product((0.0, 0.75, 1.25), repeat=3):
        out.append(dict(k="three", R=list(R), h=[0.0, 0.5, 1.25], L=2.0, ab=sum(R) > 1.5))
    for n in (3, 4, 7, 12, 25):
        for pos in range(n):
            for ab in (False, True):
                out.append(dict(k="pos", n=n, pos=pos, ab=ab))
    for n in (60, 120):
        for pos in (0, 1, 31, n // 2, n - 21, n - 2, n - 1):
            for ab in (False, True):
                out.append(dict(k="pos", n=n, pos=pos, ab=ab))
    for M in (2, 3):
        for L in LS:
            out.append(dict(k="like", M=M, L=L))
    for typ in ("regression", "classification"):
        for L in LS:
            for ab in (False, True):
                for t in range(4):
                    out.append(dict(k="train", type=typ, L=L, ab=ab, t=t))
    return out


def bounds(tier):
    return "one frequency: all R,T on a grid of %d values x 16 target pairs x 6 exponents x absorption on/off, and sums of 1 +- 2^-1 .. 2^-48; two frequencies: all R,T over %d values x targets; also with values above one, and three frequencies over 3 values; single deviations at every position of 3, 4, 7, 12, 25 and some of 60 and 120 frequencies; all likelihood tables of 2 and 3 materials over 9 levels; 96 trainings" % (
        (6, 3) if tier == "quick" else (8, 4))


def formula(R, T, tR, tT, L, ab):
    tot, flag = 0.0, False
    for r, t, a, b in zip(R, T, tR, tT):
        if r + t > 1.0:
            flag = True
            r, t = r / (r + t), t / (r + t)
        tot += abs(r - a) ** L + abs(t - b) ** L
        if ab:
            tot += abs((1 - r - t) - (1 - a - b)) ** L
    return tot / ((3 if ab else 2) * len(R)), flag


def ask(ctx, R, T, tR, tT, L, ab):
    import torch

    f = nid.optional("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    if f is None:
        ctx.shared.skipped["loss function not found under its old name"] += 1
        return
    r = [torch.tensor(float(x)) for x in R]
    t = [torch.tensor(float(x)) for x in T]
    got = f(r, t, list(tR), list(tT), [1.0 + i for i in range(len(R))], L, ab)
    ctx.op()
    e, flag = formula(R, T, tR, tT, L, ab)
    what = "R=%s T=%s targets %s %s L=%g absorption=%s" % (R, T, tR, tT, L, ab)
    ctx.check(abs(float(got[0]) - e) <= max(1e-9, 3 * (3e-16) ** L) * (1 + e), lambda: "%s: loss %r, expected %r" % (what, float(got[0]), e))
    ctx.check(bool(got[1]) == flag, lambda: "%s: flagged %s, expected %s" % (what, got[1], flag))
    same = all(x == y for x, y in zip(list(R) + list(T), list(tR) + list(tT))) and not flag
    if same:
        ctx.check(float(got[0]) == 0, "%s: loss %r for coinciding spectra" % (what, float(got[0])))
    elif not flag:
        ctx.check(float(got[0]) > 0, "%s: zero loss for different spectra" % what)
    ctx.check([float(x) for x in r] == [float(x) for x in R], "%s: spectrum modified" % what)
    ctx.state(tuple(R), tuple(T), tuple(tR), tuple(tT), L, ab)
    ctx.outcome((flag, round(e, 3)))
    ctx.trace()


def run(s, ctx):
    import torch

    k = s["k"]
    if k == "one":
        for a, b in itertools.product(s["tg"] + [s["R"]], s["tg"] + [s["T"]]):
            ask(ctx, [s["R"]], [s["T"]], [a], [b], s["L"], s["ab"])
    elif k == "two":
        for T in itertools.product(s["h"], repeat=2):
            for a in itertools.product((0.0, 0.5), repeat=4):
                ask(ctx, s["R"], list(T), list(a[:2]), list(a[2:]), s["L"], s["ab"])
    elif k == "three":
        for T in itertools.product(s["h"], repeat=3):
            ask(ctx, s["R"], list(T), [0.1, 0.5, 0.25], [0.7, 0.0, 0.5], s["L"], s["ab"])
    elif k == "pos":
        n = s["n"]
        for dR, dT in ((0.25, 0), (0, 0.25), (0.5, 0.25), (0.9, 0.9), (-0.2, 0.0)):
            R, T = [0.25] * n, [0.5] * n
            R[s["pos"]] += dR
            T[s["pos"]] += dT
            for L in LS:
                ask(ctx, R, T, [0.25] * n, [0.5] * n, L, s["ab"])
                tR = [0.1 * (i % 4) for i in range(n)]
                tT = [0.05 * i for i in range(n)]
                ask(ctx, R, T, tR, tT, L, s["ab"])
    elif k == "like":
        f = nid.optional("nidn.training.losses.likelihood_regularization_loss", "_likelihood_regularization_loss_fn")
        if f is None:
            ctx.shared.skipped["likelihood loss not found under its old name"] += 1
            return
        lv = np.linspace(0, 1, 9)
        for p in itertools.product(lv, repeat=s["M"]):
            p = np.array(p)
            for pts in (1, 2):
                # the second point is one-hot
                a = np.stack([p] + [np.eye(s["M"])[0]] * (pts - 1)).reshape(pts, 1, 1, s["M"])
                got = float(f(torch.tensor(a), s["L"]))
                ctx.op()
                e = np.minimum(a ** s["L"], (1 - a) ** s["L"]).mean()
                ctx.check(abs(got - e) <= 1e-9, lambda: "likelihood loss of %s (L=%g): %r, expected %r" % (p, s["L"], got, e))
                hot = bool(np.isin(p, (0.0, 1.0)).all())
                ctx.check(got == 0 if hot else got > 0, lambda: "likelihood loss of %s is %r" % (p, got))
                ctx.state("like", tuple(p), s["L"], pts)
                ctx.trace()
        ctx.outcome(("like", s["M"], s["L"]))
    elif k == "train":
        n = 3
        tR, tT = [([0.1, 0.5, 0.9], [0.8, 0.2, 0.05]), ([0.0] * 3, [1.0] * 3), ([0.3, 0.0, 0.6], [0.0, 0.7, 0.1]), ([1.0] * 3, [0.0] * 3)][s["t"]]
        c = nid.cfg(
            N_freq=n, N_layers=2, PER_LAYER_THICKNESS=[0.3, 0.2], type=s["type"], L=s["L"], absorption_loss=s["ab"], iterations=1, n_neurons=4, hidden_layers=1,
            TRCWA_NG=1, physical_wavelength_range=[0.6e-6, 1.9e-6], target_reflectance_spectrum=tR, target_transmittance_spectrum=tT, real_min_eps=-5.0, real_max_eps=9.0, seed=s["t"],
            reg_loss_weight=0.7,
        )
        c = nid.nidn.run_training(c)
        # after one iteration the returned model is the evaluated one (or the initial one, which is the same)
        eps, ids = nid.nidn.model_to_eps_grid(c.model, c)
        R, T = nid.nidn.compute_spectrum(eps, c)
        R, T = [float(x) for x in R], [float(x) for x in T]
        e, flag = formula(R, T, tR, tT, s["L"], s["ab"])
        if s["type"] == "classification":
            w = ids.detach().numpy()
            e += 0.7 * np.minimum(w ** s["L"], (1 - w) ** s["L"]).mean()
        l1, _ = formula(R, T, tR, tT, 1.0, False)
        ctx.op()
        ctx.close(np.array(c.results.loss_log), np.array([e]), 1e-7 * (1 + e), "training loss")
        ctx.close(np.array(c.results.L1_errs), np.array([l1]), 1e-7, "training L1 error")
        ctx.state("train", s["type"], s["L"], s["ab"], s["t"])
        ctx.outcome(("train", s["type"]))
        ctx.trace()
