"""C11: training keeps the best physically valid model and recovers from failures."""
import itertools
import numpy as np
from mc import nid

ID = "C11"
TECHNIQUE = "explicit-state model of the training loop (parameters, learning rate, best state, logs); all outcome sequences up to the bound are enumerated and every path is replayed on the real run_training with a scripted model and the real forward solver"
ASSUMPTIONS = [
    "per iteration one of: three physical spectra of different loss, spectra that are unphysical at all / one frequency, a failing forward model (NaN at all / one frequency)",
    "the scripted model has a constant parameter gradient, so the optimiser step equals the learning rate",
]
FREQ = [0.55, 1.4]
RANGE = [1.0, 6.0, -0.5, 0.5]
LR = 0.0137
NAN = float("nan")
# regression letters: model output (real, imag) per frequency
LET = {
    "A": [(0.5, 0.6), (0.4, 0.6)],
    "B": [(0.9, 0.55), (0.8, 0.6)],
    "C": [(0.1, 0.6), (0.0, 0.7)],
    "U": [(0.9, 0.3), (0.5, 0.0)],
    "V": [(0.95, 0.0), (0.4, 0.6)],
    "W": [(0.3, 0.6), (0.2, 0.0)],
    "N": [(NAN, NAN), (NAN, NAN)],
    "M": [(0.5, 0.6), (NAN, 0.6)],
}
FAIL = "NMQ"
# small changes of A: improvements and deteriorations of many magnitudes
STEPS = [1e-2, 1e-3, 1e-4, 1e-5, 3e-6]
for _i, _d in enumerate(STEPS):
    LET["%d" % _i] = [(0.5 + _d, 0.6), (0.4, 0.6)]
    LET["%d" % (5 + _i)] = [(0.5 - _d, 0.6), (0.4, 0.6)]
# permittivities of zero give no spectrum (NaN) without an error
RANGE0 = [0.0, 6.0, 0.0, 0.5]
LET0 = {"A": [(0.5, 0.6), (0.4, 0.6)], "B": [(0.9, 0.0), (0.8, 0.6)], "C": [(0.2, 0.1), (0.3, 0.0)], "Z": [(0.0, 0.0), (0.0, 0.0)], "Y": [(0.5, 0.6), (0.0, 0.0)]}
TR, TT = [0.45, 0.1], [0.3, 0.8]


def onehot(i, v=1.0):
    a = [0.0] * 10
    a[i] = v
    return a


def mixed(i, j, v=0.9):
    a = [0.0] * 10
    a[i] = a[j] = v
    return a


# classification letters: preference per material (same for both frequencies)
CLET = {"a": onehot(4), "b": onehot(9), "d": mixed(1, 4), "e": mixed(0, 6, 0.5), "Q": [NAN] * 10}
EXP = {}


def prepare():
    import torch
    from mc import mats

    for l, t in LET.items():
        if l in FAIL:
            continue
        c, model = setup("reg", [l], 1, {})
        c.target_frequencies = nid.nidn.compute_target_frequencies(*c.physical_wavelength_range, 2, "linear")
        eps, _ = nid.nidn.model_to_eps_grid(model, c)
        want = np.array([complex(RANGE[0] + (RANGE[1] - RANGE[0]) * a, RANGE[2] + (RANGE[3] - RANGE[2]) * b) for a, b in t])
        if np.abs(eps.detach().numpy().ravel() - want).max() > 1e-5:
            raise RuntimeError("scripted output %s does not give the permittivities %s" % (l, want))
        EXP[l] = forward(eps.detach())
    for l, t in CLET.items():
        if l in FAIL:
            continue
        c, model = setup("cls", [l], 1, {})
        c.target_frequencies = nid.nidn.compute_target_frequencies(*c.physical_wavelength_range, 2, "linear")
        c.material_collection = nid.nidn.MaterialCollection(c.target_frequencies)
        c.N_materials = 10
        eps, ids = nid.nidn.model_to_eps_grid(model, c)
        R, T = nid.nidn.compute_spectrum(eps, c)
        EXP[l] = ([float(x) for x in R], [float(x) for x in T], ids.detach().numpy())


def forward(eps):
    import torch

    c, _ = setup("reg", [], 1, {})
    c.target_frequencies = nid.nidn.compute_target_frequencies(*c.physical_wavelength_range, 2, "linear")
    R, T = nid.nidn.compute_spectrum(eps if torch.is_tensor(eps) else torch.tensor(eps.reshape(1, 1, 1, 2)), c)
    return [float(x) for x in R], [float(x) for x in T], None


def setup(kind, word, iterations, over, let=None):
    import torch

    c = nid.cfg(
        N_freq=2, N_layers=1, PER_LAYER_THICKNESS=[0.23], TRCWA_NG=1, iterations=iterations, learning_rate=LR,
        physical_wavelength_range=[1e-6 / FREQ[1], 1e-6 / FREQ[0]],
        real_min_eps=RANGE[0], real_max_eps=RANGE[1], imag_min_eps=RANGE[2], imag_max_eps=RANGE[3],
        target_reflectance_spectrum=TR, target_transmittance_spectrum=TT, avoid_zero_eps=False,
        type="regression" if kind == "reg" else "classification", model_type="siren",
    )
    for k, v in over.items():
        if k == "stale":
            c.best_model_state_dict = {"u": torch.full((3,), 9.0), "v": torch.full((2, 2), 7.0)}
        elif k == "target":
            c.target_reflectance_spectrum, c.target_transmittance_spectrum = EXP[v][:2]
        else:
            c[k] = v

    class Give(torch.autograd.Function):
        @staticmethod
        def forward(ctx, u, v, out):
            ctx.s = (u, v)
            return out.clone()

        @staticmethod
        def backward(ctx, g):
            u, v = ctx.s
            return torch.ones_like(u), -torch.ones_like(v), None

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.u = torch.nn.Parameter(torch.full((3,), 2.0))
            self.v = torch.nn.Parameter(torch.full((2, 2), -1.0))
            self.word = list(word)
            self.calls = 0
            self.seen = []

        def forward(self, x):
            self.seen.append((self.u.detach().clone().numpy(), self.v.detach().clone().numpy()))
            l = self.word[min(self.calls, len(self.word) - 1)]
            self.calls += 1
            f = (x[:, 3] > x[:, 3].mean()).long().numpy() if len(x) > 1 else [0]
            rows = [(let or LET)[l][i] if l in (let or LET) else CLET[l] for i in f]
            return Give.apply(self.u, self.v, torch.tensor(np.array(rows, float)))

    return c, Model()


def scenarios(tier):
    out = []
    quick = tier == "quick"

    def words(alpha, depths):
        for d in depths:
            for w in itertools.product(alpha, repeat=d):
                yield "".join(w)

    def add(kind, ws, **over):
        ws = list(ws)
        step = 12
        for i in range(0, len(ws), step):
            out.append(dict(k=kind, w=ws[i: i + step], over=over))

    add("reg", words("ABCUVWNM", (1, 2, 3)))
    add("reg", words("ABCUVN", (4,)))
    add("reg", words("ABUN", (5,)))
    add("reg", words("ABVN", (3,)), absorption_loss=True, L=2.0)
    add("reg", words("ABVN", (3,)), L=0.5)
    add("cls", words("abdeQ", (1, 2, 3)), reg_loss_weight=4.0)
    add("cls", words("abdQ", (3,)), use_regularization_loss=False)
    add("cls", words("abdQ", (3,)), L=2.0, reg_loss_weight=0.3)
    # losses of any magnitude
    for wt in (1e-9, 30.0, 1e3, 1e7):
        add("cls", words("abdQ", (2, 3)), reg_loss_weight=wt)
    # long runs: moving average over 20 iterations, many failures
    pats = ["AB", "ABC", "CBAU", "NAB", "AAAABN", "UVN", "BNNNA", "CCCCCCCCCCCB", "N"]
    add("reg", [(p * 50)[:n] for p in pats for n in (19, 20, 21, 22, 27, 43)])
    # late improvements, late losses of the best, late failures
    late = [x * n + y + z for x, y in itertools.permutations("ABC", 2) for n, z in ((24, ""), (50, "NC"), (60, ""), (100, "U"))]
    late += ["U" * 50 + "AB", "V" * 30 + "N" + "B", "N" * 45 + "CA", "A" * 101, "C" + "U" * 40 + "A", "B" + "N" * 30 + "A"]
    for t in "AB":
        add("reg", [t * 5 + x * 230 + t for x in "ABC" if x != t], target=t)
    late += ["A" * 210 + "B" + "U" * 20, "AB" * 140 + "NCA", "C" * 320 + "NB", "U" * 130 + "BA"]
    for w in late:
        out.append(dict(k="reg", w=[w], over={}))
    # targets equal to the spectrum of one outcome: its loss is practically zero
    for t in "ABC":
        add("reg", words("ABUN", (3,)), target=t)
        add("reg", [x * 12 + y * m + x * 3 for x, y in itertools.permutations("ABCU", 2) for m in (1, 3)] + [x * 3 + y * 20 + "N" + y * 3 for x, y in itertools.permutations("ABC", 2)], target=t)
    # improvements from 1e-2 down to 1e-6, in every order
    add("reg", words("A0123456789", (2,)))
    add("reg", ["".join(w) for w in itertools.permutations("A01234", 4)])
    add("reg", ["".join(w) for w in itertools.permutations("A56789", 4)])
    add("reg", ["".join(w) for w in itertools.permutations("3489", 3)], absorption_loss=True, L=2.0)
    for t, ls in (("A", "A01234"), ("2", "A0123456789")):
        add("reg", words(ls, (2,)), target=t)
    # iterations whose spectrum is NaN
    for w in words("ABCZY", (1, 2, 3)):
        out.append(dict(k="nan", w=w))
    if not quick:
        for w in words("ABCZY", (4, 5)):
            out.append(dict(k="nan", w=w))
        add("reg", words("A0123456789", (3,)))
        add("reg", words("ABCUVWNM", (4,)))
        add("reg", words("ABCUN", (5,)))
        add("reg", words("ABUN", (6,)))
        add("cls", words("abdeQ", (4,)), reg_loss_weight=4.0)
        add("reg", words("ABN", (7,)))
    # second training on top of the first
    for a in words("ABUN", (2,)):
        for b in words("ABUN", (1, 2)):
            out.append(dict(k="twice", w=[a, b], over={}))
    # the configuration still holds the best parameters of another model
    add("reg", words("ABUNM", (1, 2)), stale=True)
    for n in (1, 2, 5):
        out.append(dict(k="fdtd", n=n))
    return out


def bounds(tier):
    return "all words over 8 iteration outcomes up to length %s, over 4 up to length %s; classification over 5 outcomes up to length %d; periodic words up to length 43; single changes after 24 .. 320 equal outcomes; losses up to 1e6; targets equal to the spectrum of an outcome; improvements between 1e-2 and 1e-6 in every order; all words up to length %d over outcomes without a spectrum; all pairs of short consecutive trainings; configurations with the best parameters of another model" % (
        "3 (6 outcomes: 4)" if tier == "quick" else "4", "5" if tier == "quick" else "6 (3 outcomes: 7)", 3 if tier == "quick" else 4, 3 if tier == "quick" else 5)


def losses(l, over):
    """(total loss, L1 error, physical) of one outcome, from the statement"""
    L = over.get("L", 1.0)
    ab = over.get("absorption_loss", False)
    R, T, ids = EXP[l]
    tot = l1 = 0.0
    phys = True
    tr, tt = EXP[over["target"]][:2] if "target" in over else (TR, TT)
    for r, t, a, b in zip(R, T, tr, tt):
        if r + t > 1.0:
            phys = False
            s = r + t
            r, t = r / s, t / s
        tot += abs(r - a) ** L + abs(t - b) ** L
        if ab:
            tot += abs((1 - r - t) - (1 - a - b)) ** L
        l1 += abs(r - a) + abs(t - b)
    n = len(R)
    tot /= n * (3 if ab else 2)
    l1 /= n * 2
    if ids is not None and over.get("use_regularization_loss", True):
        tot += over.get("reg_loss_weight", 0.05) * float(np.minimum((1 - ids) ** L, ids**L).mean())
    return tot, l1, phys


def model_run(word, over, start, ctx):
    """the explicit-state model: list of states before each iteration, final state, logs"""
    w, lr, best, bl = start, LR, start, np.inf
    ties = [start]
    before, log, l1s = [], [], []
    for l in word:
        before.append(w)
        ctx.state(round(w, 9), round(lr, 12), round(best, 9), round(bl, 9) if np.isfinite(bl) else "inf")
        if l in FAIL:
            w = best
            lr = lr / 2
            continue
        tot, l1, phys = losses(l, over)
        log.append(tot)
        l1s.append(l1)
        if phys and tot < bl - 1e-8:
            best, bl = w, tot
        w = w - lr
    avg = [float(np.mean(log[max(0, i - 19): i + 1])) for i in range(len(log))]
    return before, best, log, avg, l1s


def replay(ctx, c, model, word, over, start, what):
    model.word, model.calls, model.seen = list(word), 0, []
    before, best, log, avg, l1s = model_run(word, over, start, ctx)
    r = nid.nidn.run_training(c)
    ctx.op(len(word))
    ctx.check(model.calls == len(word), lambda: "%s: model evaluated %d times" % (what, model.calls))
    for i, (w, (u, v)) in enumerate(zip(before, model.seen)):
        d = 2.0 - w  # distance from the initial parameters
        ctx.close(u, np.full(3, 2.0 - d), 1e-7, "%s: parameters before iteration %d" % (what, i + 1))
        ctx.close(v, np.full((2, 2), -1.0 + d), 1e-7, "%s: parameters before iteration %d" % (what, i + 1))
    d = 2.0 - best
    m = r.model
    ctx.close(m.u.detach(), np.full(3, 2.0 - d), 1e-7, "%s: parameters of the returned model" % what)
    ctx.close(m.v.detach(), np.full((2, 2), -1.0 + d), 1e-7, "%s: parameters of the returned model" % what)
    res = r.results
    for name, got, exp in (("loss log", res.loss_log, log), ("moving average", res.weighted_average_log, avg), ("L1 log", res.L1_errs, l1s)):
        ctx.check(len(got) == len(exp), lambda: "%s: %s has %d entries, expected %d" % (what, name, len(got), len(exp)))
        ctx.close(np.array([float(x) for x in got]), np.array(exp), 2e-6 * max(1.0, over.get("reg_loss_weight", 0.0) * 0.1), "%s: %s" % (what, name))
    ctx.outcome((what if len(word) < 4 else "long", round(best, 6)))
    ctx.trace()
    return best


def run(s, ctx):
    k = s["k"]
    if k == "fdtd":
        import torch

        c, model = setup("reg", ["A"] * s["n"], s["n"], dict(solver="FDTD", FDTD_niter=3))
        c.model = model
        r = nid.nidn.run_training(c)
        ctx.op(s["n"])
        ctx.check(model.calls == s["n"], "training stopped after %d of %d failing iterations" % (model.calls, s["n"]))
        ctx.check(len(r.results.loss_log) == 0 and len(r.results.L1_errs) == 0, "failed iterations were logged")
        ctx.close(r.model.u.detach(), np.full(3, 2.0), 0, "parameters after only failures")
        ctx.trace()
        return
    if k == "twice":
        a, b = s["w"]
        c, model = setup("reg", a, len(a), s["over"])
        c.model = model
        best = replay(ctx, c, model, a, s["over"], 2.0, "word %s (first of %s)" % (a, s["w"]))
        c.iterations = len(b)
        replay(ctx, c, model, b, s["over"], best, "word %s (second of %s)" % (b, s["w"]))
        return
    if k == "nan":
        nan(s["w"], ctx)
        return
    for w in s["w"]:
        c, model = setup(k, w, len(w), s["over"])
        c.model = model
        replay(ctx, c, model, w, s["over"], 2.0, "outcomes %s" % w)


def nan(word, ctx):
    """iterations without a spectrum never become the result; otherwise the best one does"""
    c, model = setup("reg", word, len(word), dict(zip(("real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps"), RANGE0)), LET0)
    c.model = model
    r = nid.nidn.run_training(c)
    ctx.op(len(word))
    ctx.check(model.calls == len(word), lambda: "outcomes %s: model evaluated %d times" % (word, model.calls))
    best, bl = 0, np.inf
    for i, l in enumerate(word):
        if l in "ZY":
            continue
        eps = np.array([complex(RANGE0[0] + (RANGE0[1] - RANGE0[0]) * a, RANGE0[2] + (RANGE0[3] - RANGE0[2]) * b) for a, b in LET0[l]])
        R, T, _ = forward(eps)
        tot = sum(abs(a - b) for a, b in zip(R + T, TR + TT)) / 4
        ctx.check(all(x + y <= 1 for x, y in zip(R, T)), "outcome %s should be physical" % l)
        if tot < bl - 1e-6:
            best, bl = i, tot
    u, v = model.seen[best]
    ctx.close(r.model.u.detach(), u, 1e-9, "outcomes %s (Z, Y: no spectrum): parameters of the returned model" % word)
    ctx.close(r.model.v.detach(), v, 1e-9, "outcomes %s (Z, Y: no spectrum): parameters of the returned model" % word)
    ctx.state("nan", word[:best], round(bl, 9))
    ctx.outcome(("nan", best))
    ctx.trace()
