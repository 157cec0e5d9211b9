"""C03: patterned layers == reference Fourier modal method, plus invariances."""
import itertools
import numpy as np
from mc import nid, ref, trc
from .c02 import decode, classes

ID = "C03"
TECHNIQUE = "exhaustive enumeration of grid patterns and stackings; every execution of the real solver compared with an independent Fourier modal model (global linear solve)"
ASSUMPTIONS = [
    "patterns on small grids that resolve the retained orders; material pairs from a finite alphabet",
    "deviations up to twice the effect of the solver's artificial damping are tolerated",
]
MATS = {
    "diel": [1.0, 4.0],
    "abs": [2.25, [6.0, 1.5]],
    "met": [1.0, [-15.0, 0.8]],
    "near": [2.0, 2.01],
    "weak": [2.0, [4.0, 0.005]],
    "big": [1.0, 70.0],
    "neg": [2.25, [-70.0, 2.0]],
}
LAT = {
    "small": [[0.1, 0.0], [0.0, 0.1]],
    "rect": [[1.3, 0.0], [0.0, 0.9]],
    "obl": [[1.1, 0.0], [0.4, 0.8]],
    "lx": [[1.5, 0.0], [0.0, 0.12]],
    "ly": [[0.12, 0.0], [0.0, 1.5]],
    "rot": [[0.8, 0.6], [-0.6, 0.8]],
    "nsq": [[1.1, 0.0], [0.0, 1.1011]],
}
FR = [0.43, 1.27]
# graded patterns: mean and harmonics (order 1, order 2, amplitude, phase)
GRADED = [
    (3.0, [(1, 0, 1.2, 0.3), (2, 0, 0.0008, 1.0), (0, 1, 0.9, 2.0), (1, 1, 0.0009, 0.4)]),
    (4.0, [(1, 0, 1.5, 0.0), (0, 1, 1.1, 0.7), (1, -1, 0.0007, 2.1)]),
    (2.5 + 0.4j, [(1, 1, 0.8, 0.2), (1, -1, 0.8j, 1.1), (2, 0, 0.0009, 0.0), (0, 2, 0.0009j, 0.5)]),
    (5.0, [(1, 0, 0.3, 0.9), (2, 0, 0.2, 0.1), (3, 0, 0.0008, 0.8), (0, 1, 0.4, 0.0), (0, 2, 0.3, 1.9)]),
    (2.0 + 0.05j, [(1, 2, 0.5, 0.6), (2, 1, 0.4, 2.5), (1, 1, 0.0006, 0.0)]),
]


def graded(i, sh):
    mean, har = GRADED[i]
    x, y = np.meshgrid(np.arange(sh[0]) / sh[0], np.arange(sh[1]) / sh[1], indexing="ij")
    e = np.full(tuple(sh), mean, complex)
    for a, b, amp, ph in har:
        e = e + amp * np.cos(2 * np.pi * (a * x + b * y) + ph)
    return e

TH = [0.31, 0.14, 0.22, 0.09, 0.27, 0.18]


def scenarios(tier):
    out = []
    quick = tier == "quick"

    def add(**k):
        out.append(k)

    # every binary pattern, generic rectangular lattice
    for m, lat in [("abs", "rect")] if quick else [("abs", "rect"), ("met", "obl"), ("diel", "small"), ("met", "rot")]:
        for n in range(512):
            add(k="bin", m=m, lat=lat, sh=[3, 3], p=[n], ng=11)
    # pattern classes on the other lattices and truncations
    for n in classes((3, 3)):
        for lat in ("small", "obl", "rot"):
            for ng in (6, 11):
                add(k="cls", m="met", lat=lat, sh=[3, 3], p=[n], ng=ng)
    for n in classes((3, 3))[::4]:
        for ng in (4, 6, 11):
            add(k="cls", m="abs", lat="nsq", sh=[3, 3], p=[n], ng=ng)
    # 1-d gratings along either axis
    for N in (3, 5, 6) if quick else (3, 4, 5, 6, 7, 8):
        ng = 4 if N < 5 else 6
        for n in range(2**N):
            add(k="1d", m="abs", lat="lx", sh=[N, 1], p=[n], ng=ng)
            add(k="1d", m="abs", lat="ly", sh=[1, N], p=[n], ng=ng)
    # non-square grids, one and two marked points (all positions)
    for sh in ([3, 4], [4, 3], [5, 3], [4, 5], [6, 5], [5, 5]):
        n = sh[0] * sh[1]
        for i in range(n):
            add(k="pt", m="diel", lat="rect", sh=sh, p=[1 << i], ng=11)
            if not quick:
                for j in range(i):
                    add(k="pt2", m="met", lat="obl", sh=sh, p=[(1 << i) + (1 << j)], ng=11)
    # stacks: order, thickness, cross-layer mix-ups
    reps = [1, 3, 11, 27, 78, 168]
    for a in itertools.product(reps, repeat=2):
        add(k="st2", m="abs", lat="rect", sh=[3, 3], p=list(a), ng=11)
        add(k="st2", m="met", lat="obl", sh=[3, 3], p=list(a), ng=6, one=True)
    for a in itertools.product(reps[:3] if quick else reps[:5], repeat=3):
        add(k="st3", m="diel", lat="rect", sh=[3, 3], p=list(a), ng=11)
    for a in itertools.product([0, 511, 11], repeat=3):
        add(k="mixed", m="abs", lat="rect", sh=[3, 3], p=list(a), ng=11)
    if not quick:
        for a in itertools.product(classes((3, 3))[::3], repeat=2):
            add(k="st2", m="met", lat="rect", sh=[3, 3], p=list(a), ng=11)
        for n in range(4096):
            add(k="bin34", m="abs", lat="obl", sh=[3, 4], p=[n], ng=6)
            add(k="bin43", m="met", lat="rect", sh=[4, 3], p=[n], ng=11)
        for n in classes((4, 4))[::20]:
            add(k="bin44", m="abs", lat="rect", sh=[4, 4], p=[n], ng=11)
    # weak contrast: tiny Fourier coefficients must not be lost
    for n in classes((3, 3)):
        add(k="near", m="near", lat="rect", sh=[3, 3], p=[n], ng=11)
    for m, lat in (("weak", "rect"), ("big", "small"), ("neg", "obl")):
        for n in classes((3, 3)):
            add(k="ext", m=m, lat=lat, sh=[3, 3], p=[n], ng=11)
    # deeper stacks
    for a in (reps, reps[::-1], [0] + reps[:3] + [511, 78], [11, 11, 0, 11, 27, 11]):
        for n in (4, 5, 6):
            for i in range(6):
                add(k="deep", m="abs" if i % 2 else "diel", lat="rect" if n % 2 else "obl", sh=[3, 3], p=(a * 2)[i : i + n], ng=6 if i % 3 else 11, one=i == 4)
    # invariances on the real code
    for n in reps:
        add(k="shift", m="met", lat="obl", sh=[3, 3], p=[n, 11], ng=11)
        add(k="split", m="abs", lat="rect", sh=[3, 3], p=[n], ng=11)
        add(k="axes", m="met", lat="rect", sh=[3, 3], p=[n], ng=11)
        add(k="tile", m="abs", lat="rect", sh=[3, 3], p=[n], ng=11)
    # graded patterns with small Fourier coefficients; larger grids with even numbers of points; many orders
    for m in range(len(GRADED)):
        for sh in ([5, 5], [7, 6], [6, 7], [9, 9], [10, 10], [12, 9], [9, 12], [16, 16]):
            for ng in (11, 24):
                add(k="grad", m="grad", lat="rect" if m % 2 else "obl", sh=sh, p=["g%d" % m], ng=ng)
    for m in range(0, len(GRADED), 1 if not quick else 2):
        for ng in (41, 62, 90):
            add(k="many", m="grad", lat="rect" if m % 4 else "rot", sh=[22, 23], p=["g%d" % m], ng=ng)
    for n in (3, 78, 168):
        for ng in (41, 62):
            add(k="many", m="abs", lat="rect", sh=[22, 20], p=[n << 40], ng=ng)
    # differences of orders up to and beyond half the grid
    for N in (8, 9, 10, 12, 13, 16, 20):
        for n in (1, 11, 0b1100101, 0b11111 << 2):
            for ng in (10, 12, 14):
                add(k="nyq", m="abs", lat="lx", sh=[N, 1], p=[n], ng=ng)
                add(k="nyq", m="met", lat="ly", sh=[1, N], p=[n], ng=ng)
    for sh in ([10, 10], [10, 12], [12, 10], [8, 8], [14, 14]):
        for n in (1, 11, 0x3C3C << 7, 0x10F1F3 << 11):
            for ng in (24, 41, 52):
                add(k="nyq", m="diel", lat="rect", sh=sh, p=[n], ng=ng)
    for m in range(len(GRADED)):
        add(k="gstack", m="grad", lat="rect", sh=[7, 8], p=["g%d" % m, "g%d" % ((m + 1) % len(GRADED)), "g%d" % ((m + 2) % len(GRADED))], ng=16)
    # dispersive pattern: other pattern at the second frequency
    for a, b in itertools.product(reps, repeat=2):
        add(k="disp", m="abs", lat="rect", sh=[3, 3], p=[a], p2=[b], ng=11)
    return out


def bounds(tier):
    if tier == "quick":
        return "all 512 binary 3x3 patterns, all classes x 3 lattices x 2 truncations, all 1-d gratings (3,5,6 points, both axes), all single-point positions on 6 non-square grids, stacks of 2 and 3, rotations of 4 stacks of 4..6 patterned layers, weakly absorbing and extreme permittivities, order differences up to and beyond half the grid (8..20 points), 5 graded patterns on 8 grids up to 16x16 and with up to 90 orders, 2 frequencies"
    return "all 512 binary 3x3 patterns x 4 material/lattice choices, all 4096 3x4 and 4x3, all 1-d gratings of 3..8 points (both axes), all one- and two-point patterns on 6 grids, stacks of 2 and 3, rotations of 4 stacks of 4..6 patterned layers, weakly absorbing and extreme permittivities, order differences up to and beyond half the grid (8..20 points), 5 graded patterns on 8 grids up to 16x16 and with up to 90 orders, 2 frequencies"


def grids(s, key="p"):
    if s["m"] == "grad":
        return [graded(int(n[1:]), s["sh"]) for n in s[key]]
    mats = np.array([trc.cplx(x) for x in MATS[s["m"]]])
    return [mats[decode(n, (2,), tuple(s["sh"]))] for n in s[key]]


def solve(lay, th, s, lat=None, fr=FR, **kw):
    e = np.stack(lay, -1)
    if e.ndim == 3:
        e = np.repeat(e[..., None], len(fr), -1)
    return trc.spectrum(e, fr, th, TRCWA_NG=s["ng"], TRCWA_L_grid=lat or LAT[s["lat"]],
                        TRCWA_TOP_LAYER_EPS=1.2, TRCWA_BOTTOM_LAYER_EPS=2.0, **kw)


def run(s, ctx):
    lat = LAT[s["lat"]]
    g = ref.orders(s["ng"], lat)
    if not ref.resolves(tuple(s["sh"]), g):
        # differences of orders beyond the grid: out of scope
        ctx.shared.skipped["unresolved"] += 1
        return
    lay = grids(s)
    th = [0.25] if s.get("one") else TH[: len(lay)]
    full = th * len(lay) if s.get("one") else th
    if s["k"] == "disp":
        lay2 = grids(s, "p2")
        e = np.stack([np.stack(lay, -1), np.stack(lay2, -1)], -1)
        R, T = trc.spectrum(e, FR, th, TRCWA_NG=s["ng"], TRCWA_L_grid=lat, TRCWA_TOP_LAYER_EPS=1.2, TRCWA_BOTTOM_LAYER_EPS=2.0)
        per = [lay, lay2]
    else:
        R, T = solve(lay, th, s)
        per = [lay, lay]
    ctx.op(len(FR))
    tols = []
    for i, f in enumerate(FR):
        (r, t), tol = ref.with_tol(ref.rcwa, per[i], full, 1.2, 2.0, f, lat, s["ng"], g=g)
        tol = tol + 3e-6
        tols.append(tol)
        ctx.close(R[i], r, tol[0], "reflectance at f=%g" % f)
        ctx.close(T[i], t, tol[1], "transmittance at f=%g" % f)
        ctx.state(s["sh"], s["lat"], round(r, 7), round(t, 7))
        ctx.outcome((round(r, 3), round(t, 3)))
        ctx.trace()
    tol = np.array(tols)

    def same(lay2, th2, what, **kw):
        R2, T2 = solve(lay2, th2, s, **kw)
        ctx.op(len(FR))
        ctx.close(R2, R, tol[:, 0] + 1e-5, "reflectance after " + what)
        ctx.close(T2, T, tol[:, 1] + 1e-5, "transmittance after " + what)

    if s["k"] == "shift":
        for i, j in itertools.product(range(3), range(3)):
            same([np.roll(np.roll(a, i, 0), j, 1) for a in lay], th, "shift by (%d,%d)" % (i, j))
    elif s["k"] == "split":
        same([lay[0]] * 2, [th[0] / 2] * 2, "splitting the layer")
        same([lay[0]] * 3, [th[0] / 3], "splitting the layer in three")
        same([lay[0]] * 2, [th[0] * 0.3, th[0] * 0.7], "uneven splitting")
    elif s["k"] == "axes":
        # half turn of pattern = same spectrum
        same([a[::-1, ::-1] for a in lay], th, "half turn of the pattern")
    elif s["k"] == "tile":
        big = [np.kron(a, np.ones((2, 2))) for a in lay]
        R2, T2 = solve(big, th, s)
        ctx.op(2)
        for i, f in enumerate(FR):
            (r, t), tl = ref.with_tol(ref.rcwa, big, full, 1.2, 2.0, f, lat, s["ng"], g=g)
            ctx.close(R2[i], r, tl[0] + 3e-6, "refined grid reflectance")
            ctx.close(T2[i], t, tl[1] + 3e-6, "refined grid transmittance")
