"""C24: the RCWA engine beyond the configured solver."""
import itertools
import numpy as np
from mc import ref

ID = "C24"
TECHNIQUE = "exhaustive enumeration of stacks x angles x polarisations x sides x truncations on the real engine; powers by order, fields at several depths, absorbed power, stress and reconstructed permittivities compared with an independent modal solution (one global linear system) and with transfer matrices"
ASSUMPTIONS = [
    "angles, materials and frequencies from finite sets, away from Rayleigh anomalies; excited orders are propagating",
    "the absorbed power by volume integral is demanded of absorbing layers only (in lossless ones the integral over degenerate modes is not defined by the engine)",
    "analytic Fourier layers are not implemented in the engine",
]
F0 = 1 + 0.5e-7j
LAT = {
    "sq": [[0.5, 0.0], [0.0, 0.5]],
    "rect": [[0.71, 0.0], [0.0, 0.43]],
    "obl": [[0.6, 0.0], [0.17, 0.55]],
    "rot": [[0.4, 0.3], [-0.35, 0.5]],
    "big": [[1.7, 0.0], [0.0, 1.45]],
}
NEAR = {"near": [[0.5, 0.0], [0.0, 0.501]], "nearh": [[0.5, 0.0], [0.2505, 0.4331]]}
MAT = {"a": 2.25, "b": [4.0, 0.15], "m": [-6.0, 0.4], "d": 9.0, "w": [1.5, 0.002], "L": [2.0, 1.0]}
# uniform letters, or patterns: upper index of PAT
ANG = [0.0, 0.2, 0.5, 0.9, 1.3]
AZI = [0.0, 0.6, np.pi / 2, 2.2, -1.0]
POL = {"p": (1.0, 0.0), "s": (0.0, 1.0), "d": (0.6, 0.8), "c": (0.5, [0.0, 0.5]), "e": ([0.0, -0.3], [0.7, 0.2])}


def cx(x):
    return complex(*x) if isinstance(x, (list, tuple)) else complex(x)


def pattern(k, sh):
    n, m = sh
    x, y = np.meshgrid(np.arange(n) / n, np.arange(m) / m, indexing="ij")
    if k == 0:
        return np.where((x > 0.3) & (y < 0.45), 3.2, 1.1).astype(complex)
    if k == 1:
        return np.where(x + 0.6 * y < 0.7, -4.0 + 0.5j, 1.8)
    if k == 2:
        return 2.5 + np.cos(2 * np.pi * x) + 0.4 * np.sin(2 * np.pi * (y - x)) + 0.2j * (x < 0.5)
    return np.where((np.abs(x - 0.2) < 0.21) ^ (y > 0.6), 4.0 + 0.1j, 2.0 + 0.05j)


def scenarios(tier):
    quick = tier == "quick"
    out = []

    def add(**s):
        out.append(s)

    # homogeneous stacks against transfer matrices, every angle and polarisation
    words = ["", "a", "b", "m", "bd", "dm", "adb"] if quick else [""] + ["".join(w) for n in (1, 2) for w in itertools.product("abmdw", repeat=n)] + ["adb", "mdm", "wLa"]
    for w in words:
        for th in range(len(ANG)):
            for az in range(len(AZI)):
                add(k="film", w=w, th=th, az=az)
    # patterned stacks against the modal solution
    stacks = ["0", "1", "2", "3", "a0", "1b", "02", "m1a", "0a3"] if quick else ["".join(w) for n in (1, 2) for w in itertools.product("0123ab", repeat=n)] + ["m1a", "0a3", "012", "210"]
    lats = ["rect", "obl"] if quick else ["sq", "rect", "obl", "rot", "big"]
    for w in stacks:
        for lat in lats:
            for th, az in ((0, 0), (1, 1), (2, 2), (3, 3), (2, 4), (1, 2)):
                for pol in ("p", "s", "e") if quick else POL:
                    add(k="pat", w=w, lat=lat, th=th, az=az, pol=pol, back=(th + az) % 2 == 1 and lat == "rect", ng=12, gm=0)
    for w in ("0", "2b"):
        for lat in LAT:
            for pol in POL:
                for back in (False, True):
                    for ng, gm in ((1, 0), (6, 0), (20, 0), (1, 1), (9, 1), (16, 1), (24, 1), (25, 1)):
                        add(k="pat", w=w, lat=lat, th=2, az=1, pol=pol, back=back, ng=ng, gm=gm)
    # excited orders, scaled periods, anisotropic and differently sampled layers
    for order in range(5):
        for back in (False, True):
            for th in (0, 1):
                add(k="order", w="0a2", lat="big", th=th, az=1, pol="e", back=back, ng=14, order=order)
    for sc in (0.3, 0.5, 0.8, 1.0, 1.3, 2.0):
        for th in (0, 2):
            for w in ("0", "1a"):
                add(k="scale", w=w, lat="obl", th=th, az=1, pol="d", back=False, ng=12, sc=sc)
    for w in itertools.product("0123", repeat=3):
        if quick and len(set(w)) < 2:
            continue
        add(k="aniso", w="".join(w), lat="rect", th=sum(map(int, w)) % 4, az=1, pol="e", back=False, ng=10)
    for w in itertools.product("0123", repeat=2):
        for sh in ([[7, 8], [9, 6]], [[11, 7], [6, 13]]):
            add(k="sizes", w="".join(w), sh=sh, lat="obl", th=1, az=3, pol="e", back=False, ng=8)
    # reversal of the structure
    for w in ("0", "a1", "02b", "3m"):
        for lat in ("rect", "obl"):
            for th, az in ((0, 0), (1, 1), (3, 4)):
                for pol in POL:
                    add(k="reverse", w=w, lat=lat, th=th, az=az, pol=pol, ng=10)
    for w in ("b", "L", "aL", "3", "b3", "2", "m1"):
        for th, az in ((0, 0), (1, 1), (2, 2), (3, 3)):
            for pol in POL:
                add(k="volume", w=w, lat="obl", th=th, az=az, pol=pol, back=pol == "d", ng=10)
    # one engine, several excitations and permittivities
    for w in itertools.product("01pbRFV", repeat=3 if quick else 4):
        if any(c in "01" for c in w) and any(c in "pb" for c in w):
            add(k="history", w="".join(w))
    for kpat in range(4):
        for sh in ([7, 8], [8, 8], [12, 9], [16, 15]):
            for lat in LAT:
                for ng in (1, 6, 12, 20):
                    add(k="eps", pat=kpat, sh=sh, lat=lat, ng=ng)
    for lat in LAT:
        for ng in range(1, 51):
            add(k="rectangle", lat=lat, ng=ng)
    for lat in {**LAT, **NEAR}:
        for ng in range(1, 51):
            add(k="circle", lat=lat, ng=ng)
    return out


def bounds(tier):
    return "%s homogeneous stacks x 5 polar x 5 azimuthal angles x 5 polarisations x 4 claddings; %s patterned stacks on %s lattices x 6 incidences x polarisations; 8 truncations x 5 lattices x 5 polarisations x both sides; 5 excited orders; 6 period scales; all triples of 4 patterns as diagonal tensors; layers of different sampling; reversal; absorbed power; reconstructed permittivity on 4 grids; rectangular and circular truncation up to 50 orders, also on two nearly symmetric lattices; all sequences of %s operations on one engine" % (
        ("7", "9", "2", "3") if tier == "quick" else ("34", "46", "5", "4"))


class Setup:
    def __init__(self, s, f=None, top=1.0, bot=1.0, sh=(9, 8)):
        self.f = (0.83 if f is None else f) * F0
        self.lat = {**LAT, **NEAR}[s["lat"]]
        self.theta, self.phi = ANG[s["th"]], AZI[s["az"]]
        self.top, self.bot = top, bot
        self.layers = [pattern(int(c), sh) if c in "0123" else cx(MAT[c]) for c in s["w"]]
        self.thick = [0.21, 0.34, 0.13, 0.27][: len(self.layers)]
        self.p, self.s = map(cx, POL[s["pol"]]) if "pol" in s else (1.0, 0.0)
        self.back, self.ng, self.gm, self.order = s.get("back", False), s["ng"], s.get("gm", 0), s.get("order", 0)
        self.sc = s.get("sc", 1.0)

    def engine(self, layers=None, thick=None):
        import torch
        from nidn.trcwa.trcwa import TRCWA

        layers = self.layers if layers is None else layers
        thick = self.thick if thick is None else thick
        o = TRCWA(self.ng, list(self.lat[0]), list(self.lat[1]), self.f, self.theta, self.phi, verbose=0)
        o.Add_LayerUniform(1.0, torch.tensor(complex(self.top)))
        flat = []
        for e, d in zip(layers, thick):
            if np.ndim(e) == 0:
                o.Add_LayerUniform(d, torch.tensor(e))
            else:
                sh = np.shape(e)[-2:]
                o.Add_LayerGrid(d, sh[0], sh[1])
                flat.append(np.asarray(e, dtype=complex).reshape(-1, sh[0] * sh[1]))
        o.Add_LayerUniform(1.0, torch.tensor(complex(self.bot)))
        o.Init_Setup(Pscale=self.sc, Gmethod=self.gm)
        o.MakeExcitationPlanewave(abs(self.p), float(np.angle(self.p)), abs(self.s), float(np.angle(self.s)), order=self.order, direction="backward" if self.back else "forward")
        if flat:
            if len(flat[0]) == 3:
                o.GridLayer_geteps([torch.tensor(np.concatenate([x[i] for x in flat])) for i in range(3)])
            else:
                o.GridLayer_geteps(torch.tensor(np.concatenate([x[0] for x in flat])))
        return o

    def model(self, g, layers=None, thick=None):
        lat = (np.array(self.lat) * self.sc).tolist()
        return ref.Modal(self.layers if layers is None else layers, self.thick if thick is None else thick, self.top, self.bot, self.f, lat, g, self.theta, self.phi, self.back, self.order, self.p, self.s)


def npy(x):
    return x.detach().resolve_conj().resolve_neg().numpy() if hasattr(x, "detach") else np.asarray(x)


def film(eps, d, top, bot, f, theta, pol):
    """reflectance and transmittance of a homogeneous stack by characteristic matrices"""
    w = 2 * np.pi * f
    kp = w * np.sqrt(complex(top)) * np.sin(theta)

    def kz(e):
        q = np.sqrt(e * w * w - kp**2)
        return -q if q.imag < 0 else q

    def Y(e):
        return kz(e) / w if pol == "s" else w * e / kz(e)

    M = np.eye(2, dtype=complex)
    for e, t in zip(eps, d):
        c, s = np.cos(kz(e) * t), np.sin(kz(e) * t)
        M = M @ np.array([[c, -1j * s / Y(e)], [-1j * s * Y(e), c]])
    B, C = M @ np.array([1, Y(bot)])
    y0 = Y(top)
    return abs((y0 * B - C) / (y0 * B + C)) ** 2, abs(2 * y0 / (y0 * B + C)) ** 2 * Y(bot).real / y0.real


def series(pat, g):
    """truncated Fourier series of a sampled cell"""
    c = np.fft.fft2(pat) / pat.size
    keep = np.zeros(pat.shape)
    for i, j in g:
        keep[i, j] = 1
    return np.fft.ifft2(c * keep) * pat.size


def on_grid(c, g, sh):
    x, y = np.meshgrid(np.arange(sh[0]) / sh[0], np.arange(sh[1]) / sh[1], indexing="ij")
    return sum(c[n] * np.exp(2j * np.pi * (g[n][0] * x + g[n][1] * y)) for n in range(len(g)))


def same_orders(ctx, o, st):
    lat = (np.array(st.lat)).tolist()
    g = npy(o.G)
    if st.gm == 0:
        want = {tuple(map(int, x)) for x in ref.orders(st.ng, lat)}
    else:
        want = ref.rectangle(st.ng)
    got = {tuple(map(int, x)) for x in g}
    ctx.check(got == want and len(g) == len(want) == o.nG, lambda: "retained orders %s, expected %s" % (sorted(got), sorted(want)))
    ctx.check(tuple(map(int, g[0])) == (0, 0), "the specular order is the first one")
    return g


def compare(ctx, o, m, st, what, tol=5e-6, fields=True):
    R, T = (npy(x) for x in o.RT_Solve(normalize=0, byorder=1))
    r, t = m.powers()
    scale = 1 + abs(r).sum() + abs(t).sum()
    ctx.close(R, r, tol * scale, what + ": reflected power by order")
    ctx.close(T, t, tol * scale, what + ": transmitted power by order")
    norm = np.sqrt(complex(st.top)) / np.cos(st.theta)
    tot = [float(npy(x).real) for x in o.RT_Solve(normalize=1)]
    ctx.close(np.array(tot), np.array([(r.sum() * norm).real, (t.sum() * norm).real]), tol * scale * abs(norm), what + ": normalised powers")
    raw = [float(npy(x).real) for x in o.RT_Solve()]
    ctx.close(np.array(raw), np.array([R.sum().real, T.sum().real]), 1e-9 * scale, what + ": total against the sum over orders")
    ctx.op(3)
    ctx.state(what, round(tot[0], 6), round(tot[1], 6))
    ctx.outcome((round(tot[0], 2), round(tot[1], 2)))
    ctx.trace()
    if not fields:
        return tot
    for i, d in enumerate(m.d):
        zs = [0.0, 0.37 * d, d]
        F = o.Solve_FieldFourier(i, zs)
        one = o.Solve_FieldFourier(i, zs[1])
        ctx.op(2)
        for j, z in enumerate(zs):
            E, D = m.fields(i, z)
            big = 1 + max(np.abs(x).max() for y in E for x in y)
            for a in (0, 1):
                for b in (0, 1, 2):
                    ctx.close(npy(F[j][a][b]), E[a][b], 2e-5 * big, "%s: %s%s at depth %.3g of layer %d" % (what, "eh"[a], "xyz"[b], z, i))
        for a in (0, 1):
            for b in (0, 1, 2):
                ctx.close(npy(one[0][a][b]), npy(F[1][a][b]), 1e-10 * big, "%s: field at one depth against the same among three" % what)
        if np.ndim(m.eps[i]) == 0:
            # modes of a uniform layer are the diffracted orders
            q = np.sqrt((m.eps[i] - m.kx**2 - m.ky**2) * m.k0**2)
            q = np.where(q.imag < 0, -q, q)
            q = np.concatenate([q, q])
            a0 = npy(o.GetAmplitudes(i, 0.0)[0])
            raw_a, raw_b = (npy(x) for x in o.GetAmplitudes_noTranslate(i))
            ctx.close(raw_a, a0, 1e-9 * big, "%s: untranslated forward amplitudes of layer %d" % (what, i))
            for z in zs:
                a, b = (npy(x) for x in o.GetAmplitudes(i, z))
                h = m.fields(i, z)[0][1]
                ctx.close(a + b, np.concatenate([h[0], h[1]]), 2e-5 * big, "%s: mode amplitudes at depth %.3g of layer %d" % (what, z, i))
                ctx.close(a, a0 * np.exp(1j * q * z), 2e-5 * big, "%s: forward amplitudes at depth %.3g of layer %d" % (what, z, i))
            ctx.close(b, raw_b, 1e-9 * big, "%s: untranslated backward amplitudes of layer %d" % (what, i))
            ctx.op(5)
        (ex, ey, ez), (hx, hy, hz) = m.fields(i, 0.0)[0]
        dx, dy, dz = m.fields(i, 0.0)[1]
        c = np.conj
        S = [
            np.real(np.sum(ex * c(dz) + hx * c(hz))),
            np.real(np.sum(ey * c(dz) + hy * c(hz))),
            0.5 * np.real(np.sum(ez * c(dz) + hz * c(hz) - ey * c(dy) - ex * c(dx) - abs(hx) ** 2 - abs(hy) ** 2)),
        ]
        got = [float(npy(x)) for x in o.Solve_ZStressTensorIntegral(i)]
        ctx.close(np.array(got), np.array(S), 5e-5 * big**2, "%s: stress tensor in layer %d" % (what, i))
        ctx.op()
    return tot


def run(s, ctx):
    import torch

    k = s["k"]
    if k == "film":
        for f in (0.6, 1.13):
            for top, bot in ((1.0, 1.0), (1.0, 2.25), (2.25, 1.7), (1.5, 1.5)):
                th, ph = ANG[s["th"]], AZI[s["az"]]
                if abs(top * np.sin(th) ** 2 - bot) < 0.02:
                    continue
                each = {}
                for pol in POL:
                    st = Setup(dict(s, lat="obl", pol=pol, ng=7), f, top, bot)
                    o = st.engine()
                    R, T = (float(npy(x).real) for x in o.RT_Solve(normalize=1))
                    ctx.op()
                    rs, ts = film(st.layers, st.thick, top, bot, st.f, th, "s")
                    rp, tp = film(st.layers, st.thick, top, bot, st.f, th, "p")
                    P, S = abs(st.p) ** 2, abs(st.s) ** 2
                    ctx.close(R, P * rp + S * rs, 5e-6, "reflectance of %r at %.2f rad, polarisation %s" % (s["w"], th, pol))
                    ctx.close(T, P * tp + S * ts, 5e-6, "transmittance of %r at %.2f rad, polarisation %s" % (s["w"], th, pol))
                    if all(e.imag == 0 for e in st.layers) and (top * np.sin(th) ** 2 < bot):
                        ctx.close(R + T, P + S, 5e-6, "energy of a lossless stack")
                    ctx.state("film", s["w"], f, top, bot, s["th"], pol, round(R, 6))
                    ctx.trace()
                    each[pol] = R
                ctx.outcome(("film", s["w"], round(each["p"], 2)))
        return
    if k == "eps":
        st = Setup(dict(s, w="", th=0, az=0), sh=s["sh"])
        pat = pattern(s["pat"], s["sh"])
        g0 = ref.orders(s["ng"], st.lat)
        if not ref.resolves(tuple(s["sh"]), g0):
            ctx.shared.skipped["unresolved"] += 1
            return
        o = st.engine([pat, 2.0 + 0.5j], [0.2, 0.1])
        g = same_orders(ctx, o, st)
        want = series(pat, g)
        for comp in ("xx", "yy", "zz", "xy", "yx"):
            got = npy(o.Return_eps(1, s["sh"][0], s["sh"][1], comp))
            ctx.close(got, want if comp[0] == comp[1] else np.zeros(want.shape), 1e-9 * (1 + abs(want).max()), "reconstructed permittivity (%s)" % comp)
            ctx.op()
        ctx.close(npy(o.Return_eps(2, 3, 4)), np.full((3, 4), 2.0 + 0.5j), 1e-12, "permittivity of a uniform layer")
        F = o.Solve_FieldOnGrid(1, 0.1)
        K = o.Solve_FieldFourier(1, 0.1)[0]
        for a in (0, 1):
            for b in (0, 1, 2):
                w = on_grid(npy(K[a][b]), g, s["sh"])
                ctx.close(npy(F[a][b]), w, 1e-9 * (1 + abs(w).max()), "field on the grid against its Fourier series")
        ctx.op(2)
        single = o.Solve_FieldOnGrid(1, [0.1])
        ctx.check(len(single) == 1 and len(single[0]) == 2 and len(single[0][0]) == 3, "one depth in a list gives one field in a list")
        ctx.close(npy(single[0][1][0]), npy(F[1][0]), 1e-10 * (1 + abs(w).max()), "field at one depth in a list against the same depth alone")
        many = o.Solve_FieldOnGrid(2, [0.0, 0.05], Nxy=[6, 14])
        ctx.check(len(many) == 2 and tuple(many[1][0][0].shape) == (6, 14), "fields on a grid of another size")
        ctx.state("eps", s["pat"], tuple(s["sh"]), s["lat"], s["ng"])
        ctx.outcome("eps")
        ctx.trace()
        return
    if k == "history":
        import copy

        def excite(o, c):
            if c == "p":
                o.MakeExcitationPlanewave(0.8, 0.3, 0.6, 0.0)
            else:
                o.MakeExcitationPlanewave(0.0, 0.0, 1.0, 0.2, order=1, direction="backward")

        def permit(o, c):
            o.GridLayer_geteps(torch.tensor(np.concatenate([pattern(int(c), (7, 8)).ravel(), pattern(2 + int(c), (7, 8)).ravel()])))

        def look(o, c):
            if c == "R":
                return [npy(x) for x in o.RT_Solve(normalize=1, byorder=1)]
            if c == "F":
                return [npy(y) for z in o.Solve_FieldFourier(2, [0.0, 0.1]) for x in z for y in x]
            M = torch.eye(int(o.nG), dtype=torch.complex128)
            return [npy(o.Volume_integral(1, M, M, M))]

        def fresh(eps, exc):
            st = Setup(dict(lat="obl", w="", th=1, az=1, ng=7), f=1.4, top=1.3, bot=2.0)
            o = TRCWA(st.ng, list(st.lat[0]), list(st.lat[1]), st.f, st.theta, st.phi, verbose=0)
            o.Add_LayerUniform(1.0, torch.tensor(1.3 + 0j))
            o.Add_LayerGrid(0.2, 7, 8)
            o.Add_LayerGrid(0.3, 7, 8)
            o.Add_LayerUniform(1.0, torch.tensor(2.0 + 0j))
            o.Init_Setup()
            excite(o, exc)
            permit(o, eps)
            return o

        from nidn.trcwa.trcwa import TRCWA

        eps, exc = "0", "p"
        o = fresh(eps, exc)
        for c in s["w"]:
            if c in "01":
                eps = c
                permit(o, c)
            elif c in "pb":
                exc = c
                excite(o, c)
            else:
                look(o, c)
            ctx.op()
        for c in "RFV":
            for got, want in zip(look(o, c), look(fresh(eps, exc), c)):
                ctx.close(got, want, 1e-9 * (1 + np.abs(want).max()), "result %s of an engine after %s against a new engine" % (c, s["w"]))
        ctx.state("history", eps, exc, s["w"])
        ctx.outcome(("history", eps, exc))
        ctx.trace()
        return
    if k in ("rectangle", "circle"):
        st = Setup(dict(s, w="a", th=1, az=1, gm=1 if k == "rectangle" else 0))
        o = st.engine()
        same_orders(ctx, o, st)
        ctx.op()
        ctx.state(k, s["lat"], int(o.nG))
        ctx.outcome((k, int(o.nG)))
        ctx.trace()
        return
    if k == "aniso":
        st = Setup(dict(s, w="a"), top=1.3, bot=2.0)
        st.layers = [np.stack([pattern(int(c), (9, 8)) for c in s["w"]]), 2.0 + 0.3j, np.stack([pattern(int(c), (9, 8)).T.copy().reshape(9, 8) for c in s["w"][::-1]])]
        st.thick = [0.2, 0.15, 0.1]
        o = st.engine()
        g = same_orders(ctx, o, st)
        compare(ctx, o, st.model(g), st, "diagonal tensors %s" % s["w"], fields=False)
        for i in (1, 3):
            for comp in ("xx", "yy", "zz", "xy", "yx"):
                got = npy(o.Return_eps(i, 9, 8, comp))
                want = series(st.layers[i - 1]["xyz".index(comp[0])], g) if comp[0] == comp[1] else np.zeros((9, 8))
                ctx.close(got, want, 1e-9 * (1 + abs(want).max()), "reconstructed permittivity (%s) of layer %d with diagonal tensors %s" % (comp, i, s["w"]))
                ctx.op()
        return
    if k == "sizes":
        st = Setup(dict(s, w="a"), top=1.0, bot=1.6)
        st.layers = [pattern(int(c), sh) for c, sh in zip(s["w"], s["sh"])]
        st.thick = [0.3, 0.17]
        o = st.engine()
        g = same_orders(ctx, o, st)
        if not all(ref.resolves(tuple(sh), g) for sh in s["sh"]):
            ctx.shared.skipped["unresolved"] += 1
            return
        compare(ctx, o, st.model(g), st, "layers sampled on %s points" % s["sh"])
        for i in (1, 2):
            F = o.Solve_FieldOnGrid(i, 0.08)
            K = o.Solve_FieldFourier(i, 0.08)[0]
            for a in (0, 1):
                for b in (0, 1, 2):
                    w = on_grid(npy(K[a][b]), g, s["sh"][i - 1])
                    got = npy(F[a][b])
                    ctx.check(got.shape == w.shape, lambda: "field of layer %d on %s points, layer is sampled on %s" % (i, got.shape, w.shape))
                    ctx.close(got, w, 1e-9 * (1 + abs(w).max()), "field on the grid of layer %d of two differently sampled ones" % i)
            ctx.op(2)
        return
    if k == "reverse":
        st = Setup(dict(s, back=False), top=1.44, bot=1.44)
        a = st.engine()
        R, T = (npy(x).real for x in a.RT_Solve(normalize=1, byorder=1))
        st.back = True
        b = st.engine(st.layers[::-1], st.thick[::-1])
        R2, T2 = (npy(x).real for x in b.RT_Solve(normalize=1, byorder=1))
        ctx.op(2)
        ctx.close(R2, R, 5e-6, "reflection of the reversed structure %s from the back" % s["w"])
        ctx.close(T2, T, 5e-6, "transmission of the reversed structure %s from the back" % s["w"])
        ctx.state("reverse", s["w"], s["lat"], s["th"], s["pol"], R.round(6).tobytes())
        ctx.outcome("reverse")
        ctx.trace()
        return
    if k == "volume":
        st = Setup(s, top=1.2, bot=1.2)
        o = st.engine()
        g = npy(o.G)
        R, T = (float(npy(x).real) for x in o.RT_Solve(normalize=1))
        tot = 0.0
        lossless = False
        for i, e in enumerate(st.layers):
            if np.ndim(e) == 0 and e.imag == 0:
                continue
            M = torch.tensor(e.imag * np.eye(len(g)) + 0j if np.ndim(e) == 0 else ref.conv(e.imag + 0j, g))
            v = npy(o.Volume_integral(i + 1, M, M, M, normalize=1))
            tot += float((v * 2 * np.pi * st.f).real)
            raw = npy(o.Volume_integral(i + 1, M, M, M))
            ctx.close(raw * np.sqrt(1.2 + 0j) / np.cos(st.theta), v, 1e-9, "normalised volume integral")
            ctx.op(2)
        P = abs(st.p) ** 2 + abs(st.s) ** 2
        ctx.close(tot, P - R - T, 2e-5, "absorbed power of %s" % s["w"])
        ctx.state("volume", s["w"], s["th"], s["pol"], round(tot, 6))
        ctx.outcome("volume")
        ctx.trace()
        return
    st = Setup(s, top=1.3 if k != "order" else 2.0, bot=1.9)
    o = st.engine()
    g = same_orders(ctx, o, st)
    if not ref.resolves((9, 8), g):
        ctx.shared.skipped["unresolved"] += 1
        return
    m = st.model(g)
    if k == "order":
        kk = m.kx[s["order"]].real ** 2 + m.ky[s["order"]].real ** 2
        if kk > 0.95 * min(st.top, st.bot):
            ctx.shared.skipped["evanescent order"] += 1
            return
    compare(ctx, o, m, st, "stack %s" % s["w"], fields=k != "order")
