"""Independent numpy Yee stepper with CPML / periodic boundaries and the
reference model of the FDTD spectrum pipeline (no code of the library)."""
import math
import numpy as np

C0 = 299792458.0
EPS0 = 8.8541878128e-12
MU0 = 4e-7 * math.pi
ETA0 = MU0 * C0
UNIT = 1e-6


def diff(F, ax, fwd):
    """Difference along ax; forward: out[i]=F[i+1]-F[i] (last 0), else backward."""
    out = np.zeros_like(F)
    hi = [slice(None)] * 3
    lo = [slice(None)] * 3
    hi[ax], lo[ax] = slice(1, None), slice(None, -1)
    out[tuple(lo if fwd else hi)] = F[tuple(hi)] - F[tuple(lo)]
    return out


# component i of the curl: + d_j F_k - d_k F_j
TERMS = {0: [(1, 2, 1), (2, 1, -1)], 1: [(2, 0, 1), (0, 2, -1)], 2: [(0, 1, 1), (1, 0, -1)]}


def curl(F, fwd):
    return np.stack(
        [sum(s * diff(F[..., k], ax, fwd) for ax, k, s in TERMS[i]) for i in range(3)], -1
    )


class Cpml:
    def __init__(self, ax, side, t, shape, c):
        self.ax, self.t = ax, t
        sl = [slice(None)] * 3
        sl[ax] = slice(0, t) if side == "low" else slice(shape[ax] - t, shape[ax])
        self.sl = tuple(sl)
        i = np.arange(t, dtype=float)
        if side == "low":
            se = 40 * (t - 0.5 - i) ** 3 / (t + 1) ** 4
            sh = 40 * (t - 1 - i) ** 3 / (t + 1) ** 4
        else:
            se = 40 * (i + 0.5) ** 3 / (t + 1) ** 4
            sh = 40 * (i + 1) ** 3 / (t + 1) ** 4
            sh[-1] = 0
        v = [1, 1, 1]
        v[ax] = t
        a = 1e-8

        def coef(s):
            b = np.exp(-(s + a) * c)
            return b.reshape(v), ((b - 1) * s / (s + a)).reshape(v)

        self.bE, self.cE = coef(se)
        self.bH, self.cH = coef(sh)
        reg = tuple(len(range(*s.indices(n))) for s, n in zip(self.sl, shape))
        self.psi = {
            (w, i): np.zeros(reg)
            for w in "EH"
            for i in range(3)
            if any(t_[0] == ax for t_ in TERMS[i])
        }

    def correction(self, w, F, fwd):
        """convolution terms for the curl of F, taken inside the region only"""
        b, c = (self.bE, self.cE) if w == "E" else (self.bH, self.cH)
        out = {}
        for i in range(3):
            for ax, k, s in TERMS[i]:
                if ax != self.ax:
                    continue
                p = self.psi[(w, i)]
                p *= b
                p += c * diff(F[self.sl][..., k], ax, fwd)
                out[i] = s * p
        return out


class Yee:
    def __init__(self, shape, spacing, eps=1.0, mu=1.0, courant=None):
        self.shape = tuple(shape)
        D = sum(n > 1 for n in shape)
        self.c = 0.99 / math.sqrt(D) if courant is None else courant
        self.dx = spacing
        self.dt = self.c * spacing / C0
        self.E = np.zeros(self.shape + (3,))
        self.H = np.zeros(self.shape + (3,))
        self.ie = np.full(self.shape + (3,), 1 / eps)
        self.im = 1 / mu
        self.a = np.zeros(self.shape + (3,))
        self.bounds = []
        self.sources = []
        self.hard = []
        self.detectors = []
        self.n = 0

    def pml(self, ax, side, t):
        self.bounds.append(Cpml(ax, side, t, self.shape, self.c))

    def periodic(self, ax):
        self.bounds.append(ax)

    def obj(self, box, eps, cond=None):
        """box: ((x0,x1),(y0,y1),(z0,z1)); the last cell's normal component
        keeps the value of the grid's far edge (the component lies on the face)."""
        sl = tuple(slice(a, b) for a, b in box)
        ie = np.broadcast_to(1 / np.asarray(eps, float), tuple(b - a for a, b in box) + (3,)).copy()
        for ax in range(3):
            if box[ax][1] - box[ax][0] > 1:
                last = [slice(None)] * 3
                last[ax] = -1
                far = list(sl)
                far[ax] = -1
                ie[tuple(last) + (ax,)] = self.ie[tuple(far) + (ax,)]
        self.ie[sl] = ie
        if cond is not None:
            self.a[sl] = 0.5 * self.c * ie * cond * self.dx * ETA0

    def source(self, points, weights, fn):
        self.sources.append((points, weights, fn))

    def step(self):
        corr = [b.correction("E", self.H, False) if isinstance(b, Cpml) else None for b in self.bounds]
        self.E = (self.E * (1 - self.a) + self.c * self.ie * curl(self.H, False)) / (1 + self.a)
        for b, k in zip(self.bounds, corr):
            if k is None:
                lo, hi = [slice(None)] * 3, [slice(None)] * 3
                lo[b], hi[b] = 0, -1
                self.E[tuple(lo)] = self.E[tuple(hi)]
            else:
                for i, v in k.items():
                    self.E[b.sl + (i,)] += self.c * self.ie[b.sl + (i,)] * v
        for pts, wts, fn in self.sources:
            s = fn(self.n)
            for p, w in zip(pts, wts):
                self.E[p + (2,)] += w * s
        for box, e, h, fn in self.hard:
            self.E[box + (e,)] = fn(self.n)
        rec = [np.array([self.E[p] for p in d]) for d in self.detectors]
        corr = [b.correction("H", self.E, True) if isinstance(b, Cpml) else None for b in self.bounds]
        self.H = self.H - self.c * self.im * curl(self.E, True)
        for b, k in zip(self.bounds, corr):
            if k is None:
                lo, hi = [slice(None)] * 3, [slice(None)] * 3
                lo[b], hi[b] = 0, -1
                self.H[tuple(hi)] = self.H[tuple(lo)]
            else:
                for i, v in k.items():
                    self.H[b.sl + (i,)] -= self.c * self.im * v
        for box, e, h, fn in self.hard:
            self.H[box + (h,)] = fn(self.n)
        rech = [np.array([self.H[p] for p in d]) for d in self.detectors]
        self.n += 1
        return rec, rech


def line_weights(n, amplitude=1.0):
    k = np.arange(n) - n // 2
    v = k.astype(float) ** 2
    p = np.exp(-(v**2) / (2 * (0.5 * v.max()) ** 2))
    return amplitude * p / p.sum()


def line_weights_at(pts, amplitude=1.0):
    """Gaussian profile of a line source over its cells, normalised to the amplitude."""
    q = np.array(pts, float)
    v = ((q - q[len(q) // 2]) ** 2).sum(1)
    p = np.exp(-(v**2) / (2 * (0.5 * v.max()) ** 2))
    return amplitude * p / p.sum()


def waveform(kind, period, dt, dx, c, phase=0.0, cycle=5, hdt=10.0):
    """period: int (steps) or float (seconds); value of the source at step n."""
    steps = period if isinstance(period, int) else int(period / dt + 0.5)
    f = 1.0 / period
    if kind == "hanning":
        t1 = int(2 * math.pi / (f * hdt / cycle))

        def fn(n):
            if n >= t1:
                return 0.0
            x = f * n * hdt
            return 0.5 * (1 - math.cos(x / cycle)) * math.sin(x)

    elif kind == "ricker":
        ppw = C0 * period / dx

        def fn(n):
            if n >= 6 * ppw:
                return 0.0
            v = (math.pi * (n * c / ppw - 1)) ** 2
            return (1 - 2 * v) * math.exp(-v)

    else:

        def fn(n):
            return math.sin(2 * math.pi * n / steps + phase)

    return fn


# --------------------------------------------------------------- pipeline


def scaling(wl_min, min_pts):
    return max(UNIT / (wl_min * 0.1), min_pts)


def scene(p, wl, eps):
    """p: dict of configuration values; eps: list of complex or None."""
    s = scaling(p["range"][0], p["min_pts"])
    th = p["thick"]
    tot = sum(th)
    nx = int(s * (2 * p["pml"] + 2 * p["free"] + tot))
    y = Yee((nx, 3, 1), UNIT / s)
    t = int(p["pml"] * s)
    y.pml(0, "low", t)
    y.pml(0, "high", t)
    y.periodic(1)
    tx = int((p["pml"] + p["free"] + tot) * s + p["gap"])
    rx = int((p["pml"] + p["free"]) * s - p["gap"])
    y.detectors = [[(tx, j, 0) for j in range(3)], [(rx, j, 0) for j in range(3)]]
    sx, sy = int(p["src"][0] * s), int(p["src"][1] * s)
    period = wl / C0
    fn = waveform(p["pulse"], period, y.dt, y.dx, y.c, hdt=1e-15)
    if p["stype"] == "line":
        y.source([(sx, j, 0) for j in range(3)], line_weights(3), fn)
    else:
        y.source([(sx, sy, 0)], [1.0], fn)
    if eps is not None:
        x = p["pml"] + p["free"]
        for d, e in zip(th, eps):
            e = complex(e)
            y.obj(((int(s * x), int(s * (x + d))), (0, 3), (0, 1)), e.real, e.imag * 2 * math.pi * C0 / wl * EPS0)
            x += d
    return y, dict(nx=nx, pml=t, tx=tx, rx=rx, sx=sx, sy=sy, s=s)


def record(p, wl, eps):
    y, info = scene(p, wl, eps)
    out = np.zeros((2, p["niter"]))
    for n in range(p["niter"]):
        rec, _ = y.step()
        for d in (0, 1):
            out[d, n] = rec[d][:, 2].mean()
    return out, info


def steady(sig, wl, min_pts, free):
    w = int(3 * min_pts * (wl / UNIT))
    nz = np.nonzero(np.abs(sig) > 1e-8)[0]
    sig = sig[nz[0] :] if len(nz) else sig
    if len(sig) <= 2 * w:
        return sig
    parts = [sig[i : i + w] for i in range(0, len(sig), w)]
    parts[-2] = np.concatenate([parts[-2], parts[-1]])
    parts.pop()
    r = np.array([q.max() - q.min() for q in parts])
    ch = np.abs(np.diff(r))
    rel = ch / ch.max()
    k = [i for i in range(len(rel)) if not rel[i] < (0.5 if free else 0.1)][-1]
    return sig[(k + 1) * w :]


def power(sig):
    pk = [i for i in range(1, len(sig) - 1) if sig[i] > sig[i - 1] and sig[i] > sig[i + 1]]
    if len(pk) > 1:
        q = sig[pk[0] : pk[-1]]
        return float((q**2).mean())
    return float(max(sig) ** 2 / 2)


def coefficients(fs, mat, wl, min_pts):
    """fs, mat: (transmission, reflection) recordings -> T, R, raw sum."""
    t0 = power(steady(fs[0], wl, min_pts, True))
    t1 = power(steady(mat[0], wl, min_pts, False))
    r0 = power(steady(fs[1], wl, min_pts, True))
    r1 = power(steady(mat[1] - fs[1], wl, min_pts, False))
    T, R = t1 / t0, r1 / r0
    s = T + R
    if 1 < s < 1.05:
        T, R = T / s, R / s
    return T, R, s
