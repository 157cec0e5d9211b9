"""C02: energy balance of RCWA over all small patterns."""
import itertools
import numpy as np
from mc import nid, ref, trc

ID = "C02"
TECHNIQUE = "exhaustive enumeration of all binary (thorough: ternary) grid patterns and stackings on the real solver, energy invariant on every one"
ASSUMPTIONS = [
    "patterns of two (thorough: three) materials on 3x3, 3x4 and 1-d grids; frequencies away from Rayleigh anomalies",
    "lossless structures may lose up to 1 % by the solver's artificial damping at sharp resonances",
]
MATS = {
    "diel": [1.0, 4.0],
    "hi": [2.25, 12.0],
    "met": [1.0, [-15.0, 0.8]],
    "abs": [[2.0, 0.3], [6.0, 2.5]],
    "mix": [4.0, [-3.0, 0.2]],
    "met0": [1.0, -15.0],
    "ext": [95.0, [-95.0, 2.5]],
    "ext0": [1.0, 80.0],
    "met1": [2.25, [-15.0, 1e-3]],
}
LAT = {
    "small": [[0.1, 0.0], [0.0, 0.1]],
    "diff": [[1.3, 0.0], [0.0, 1.1]],
    "obl": [[1.2, 0.0], [0.5, 1.0]],
    "line": [[1.7, 0.0], [0.0, 0.15]],
}
FREQ = {"small": [0.37, 1.21], "diff": [0.37, 1.21], "obl": [0.41, 1.33], "line": [0.31, 1.43]}


def decode(n, p, shape):
    base = p[0]
    out = []
    for _ in range(shape[0] * shape[1]):
        out.append(n % base)
        n //= base
    return np.array(out).reshape(shape)


def classes(shape):
    """representatives of binary patterns up to cyclic shifts"""
    seen, rep = set(), []
    for n in range(2 ** (shape[0] * shape[1])):
        a = decode(n, (2,), shape)
        k = min(
            np.roll(np.roll(a, i, 0), j, 1).tobytes()
            for i in range(shape[0])
            for j in range(shape[1])
        )
        if k not in seen:
            seen.add(k)
            rep.append(n)
    return rep


def scenarios(tier):
    out = []
    quick = tier == "quick"

    def add(**k):
        out.append(k)

    grid = [("diel", "diff"), ("met", "small"), ("abs", "diff")]
    if not quick:
        grid = [(m, l) for m in ("diel", "hi", "met", "abs", "mix") for l in ("small", "diff", "obl")]
    for m, lat in grid:
        for n in range(512):
            add(m=m, lat=lat, sh=[3, 3], p=[n], ng=11, cl=[1.0, 1.0])
    for n in classes((3, 3)):
        add(m="ext", lat="small", sh=[3, 3], p=[n], ng=11, cl=[1.0, 1.0])
        add(m="ext", lat="diff", sh=[3, 3], p=[n], ng=6, cl=[1.0, 1.0])
        add(m="ext0", lat="small", sh=[3, 3], p=[n], ng=11, cl=[1.0, 2.0])
    for m, lat in (("hi", "obl"),):
        for n in classes((3, 3)):
            add(m=m, lat=lat, sh=[3, 3], p=[n], ng=6, cl=[2.25, 1.0])
            add(m=m, lat=lat, sh=[3, 3], p=[n], ng=11, cl=[1.0, 5.0])
    for N in (5, 6) if quick else (5, 6, 7, 8):
        for m in ("diel", "met"):
            for n in range(2**N):
                add(m=m, lat="line", sh=[N, 1], p=[n], ng=6, cl=[1.0, 1.5])
    cl = classes((3, 3))
    some = cl[:: 8] if quick else cl
    for m, lat in (("diel", "diff"), ("met", "diff")):
        for a, b in itertools.product(some, repeat=2):
            add(m=m, lat=lat, sh=[3, 3], p=[a, b], ng=11, cl=[1.0, 2.25])
    some = cl[:: 14] if quick else cl[:: 4]
    for a in itertools.product(some, repeat=3):
        add(m="mix", lat="obl", sh=[3, 3], p=list(a), ng=11, cl=[1.0, 1.0])
    # thick layers of lossless or nearly lossless metals
    for m, lat in (("met0", "diff"), ("met0", "small"), ("met1", "diff"), ("hi", "diff"), ("met", "obl")):
        for n in cl if not quick else cl[::2] + cl[-1:]:
            for x in (12.0, 60.0) if quick else (4.0, 12.0, 60.0, 200.0):
                add(m=m, lat=lat, sh=[3, 3], p=[n], ng=11, cl=[1.0, 1.0], x=x)
    # homogeneous stacks of all sorts are passive too
    for a in itertools.product(range(4), repeat=4 if quick else 5):
        add(m="uni", lat="small", sh=[1, 1], p=list(a), ng=1, cl=[1.0, 1.0])
    for n in (1, 2, 3):
        for a in itertools.product(range(5), repeat=n):
            add(m="uni2", lat="small", sh=[1, 1], p=list(a), ng=1, cl=[1.0, 1.7])
    if not quick:
        for n in range(4096):
            add(m="diel", lat="diff", sh=[3, 4], p=[n], ng=11, cl=[1.0, 1.0])
        for n in range(3**9):
            add(m="tern", lat="diff", sh=[3, 3], p=[n], ng=11, cl=[1.0, 1.0])
    return out


MATS["uni"] = [1.7, 8.0, [3.0, 1.0], [-12.0, 0.6]]
MATS["uni2"] = [95.0, [-95.0, 2.5], [-30.0, 0.2], 2.0, [0.02, 0.001]]
MATS["tern"] = [1.0, 3.0, [-8.0, 0.5]]


def bounds(tier):
    if tier == "quick":
        return "all 512 binary 3x3 patterns x 3 material pair/lattice choices x 2 frequencies, all classes at other truncations, all binary 1-d gratings of 5..6 points, all pairs/triples of every 8th/14th class, all 4-layer stacks of 4 materials, every other class 12 and 60 times as thick for 5 material pairs"
    return "all 512 binary 3x3 patterns x 5 material pairs x 3 lattices x 2 frequencies, all 4096 3x4, all 19683 ternary 3x3, all 1-d gratings of 5..8 points, all pairs of pattern classes, triples of every 4th class, all 5-layer stacks of 4 materials, all classes 4..200 times as thick"


def run(s, ctx):
    mats = [trc.cplx(x) for x in MATS[s["m"]]]
    sh = tuple(s["sh"])
    fr = FREQ[s["lat"]]
    th = [x * s.get("x", 1.0) for x in [0.42, 0.17, 0.3, 0.23, 0.11][: len(s["p"])]]
    base = 3 if s["m"] == "tern" else 2
    layers = []
    for n in s["p"]:
        if sh == (1, 1):
            layers.append(np.full((1, 1), mats[n]))
        else:
            layers.append(np.array(mats)[decode(n, (base,), sh)])
    e = np.stack(layers, -1)  # Nx,Ny,NL
    eps = np.repeat(e[..., None], len(fr), -1)
    R, T = trc.spectrum(
        eps, fr, th, TRCWA_NG=s["ng"], TRCWA_L_grid=LAT[s["lat"]],
        TRCWA_TOP_LAYER_EPS=s["cl"][0], TRCWA_BOTTOM_LAYER_EPS=s["cl"][1],
    )
    ctx.op(len(fr))
    lossless = np.all(e.imag == 0) and "x" not in s
    for i, f in enumerate(fr):
        r, t = R[i], T[i]
        ctx.check(r >= -1e-6, lambda: "reflectance %r < 0 at f=%g" % (r, f))
        ctx.check(t >= -1e-6, lambda: "transmittance %r < 0 at f=%g" % (t, f))
        ctx.check(r + t <= 1 + 1e-5, lambda: "R+T = %r > 1 at f=%g" % (r + t, f))
        if lossless:
            ctx.check(r + t >= 1 - 1e-2, lambda: "lossless structure loses %r at f=%g" % (1 - r - t, f))
        ctx.trace()
        ctx.state(s["m"], s["lat"], round(r, 6), round(t, 6))
        ctx.outcome((round(r, 2), round(t, 2)))
