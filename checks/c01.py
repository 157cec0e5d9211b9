"""C01: homogeneous stacks, RCWA == thin-film solution."""
import itertools
import numpy as np
from mc import nid, ref, trc

ID = "C01"
TECHNIQUE = "exhaustive enumeration of layer sequences on the real solver against a transfer-matrix reference model"
ASSUMPTIONS = [
    "permittivity, thickness, cladding, lattice and frequency alphabets are finite; values in between are not explored",
    "deviations up to twice the effect of the solver's artificial damping (Q=1e5) are tolerated",
]

# dielectric, dense dielectric, absorber, metal, epsilon near zero, vacuum
MAT = {
    "a": 2.25,
    "b": 12.0,
    "c": [3.0, 2.0],
    "m": [-20.0, 1.5],
    "z": [0.05, 0.01],
    "v": 1.0,
    # equal to others in one part only
    "B": [12.0, 0.6],
    "V": [1.0, 0.4],
    "M": -20.0,
    "N": [-20.0, 3.0],
    "C": [5.0, 2.0],
    # weak contrast, weak loss, ends of the default permittivity range
    "n": 2.2525,
    "w": [2.25, 0.004],
    "e": [12.0, 0.02],
    "H": 95.0,
    "K": [-95.0, 2.9],
    "k": [-60.0, 0.0],
}
CLAD = [(1.0, 1.0), (1.0, 2.25), (2.25, 1.0), (4.0, 9.0), (0.5, 1.0), (1.0, 0.6)]
FREQ = [0.21, 0.95]
TH = {"one": [0.13], "list": [0.11, 0.32, 0.07, 0.53, 0.26, 0.17, 0.41, 0.09, 0.21, 0.38, 0.12, 0.29]}
LAT = {
    "sq": [[0.1, 0.0], [0.0, 0.1]],
    "rect": [[0.4, 0.0], [0.0, 0.7]],
    "obl": [[0.9, 0.0], [0.35, 0.8]],
    "big": [[1.9, 0.0], [0.0, 1.6]],
}


def seqs(alpha, n):
    for k in range(1, n + 1):
        for s in itertools.product(alpha, repeat=k):
            yield "".join(s)


def scenarios(tier):
    out = []
    quick = tier == "quick"
    # layer order, thickness selection, claddings
    for s in seqs("abcmz", 3):
        for th in ("one", "list"):
            if len(s) == 1 and th == "list":
                continue
            for cl in range(4):
                out.append(dict(k="seq", s=s, th=th, cl=cl, ng=1, lat="sq"))
    for s in seqs("bBVMNcC", 3):
        out.append(dict(k="part", s=s, th="list", cl=0, ng=1, lat="sq"))
        if len(s) < 3 or not quick:
            out.append(dict(k="part", s=s, th="one", cl=1, ng=1, lat="sq"))
    # lattice and truncation must not matter
    for s in seqs("abm", 2):
        for ng in (1, 3, 6, 11, 14) if quick else (1, 2, 3, 4, 5, 6, 7, 9, 11, 14, 22):
            for lat in LAT:
                out.append(dict(k="ng", s=s, th="list", cl=3, ng=ng, lat=lat))
    # long stacks
    for n in (4, 5) if quick else (4, 5, 6, 7, 8):
        for s in itertools.product("am" if n > 5 else "av", repeat=n):
            out.append(dict(k="long", s="".join(s), th="list", cl=1, ng=1, lat="sq"))
        if not quick and n <= 6:
            for s in itertools.product("abc", repeat=n):
                out.append(dict(k="long", s="".join(s), th="list", cl=2, ng=1, lat="sq"))
    words = ["abnVawcvaCbn", "wavbawvnbeva", "nananananana", "HvavHaKvavma"]
    for wd in words:
        for n in (6, 7, 8, 10, 12) if quick else (6, 7, 8, 9, 10, 11, 12):
            for i in range(12):
                out.append(dict(k="word", s=(wd * 2)[i : i + n], th="list" if i % 3 else "one", cl=(i + n) % 4, ng=1 if i % 4 else 11, lat="sq"))
    for s in seqs("anwebHKk", 2 if quick else 3):
        out.append(dict(k="range", s=s, th="list", cl=1, ng=1, lat="sq"))
    # dispersion: other sequence at the second frequency; single precision grids; grids of equal values
    for s, t in itertools.product(seqs("abm", 2), repeat=2):
        if len(s) == len(t):
            out.append(dict(k="disp", s=s, t=t, th="list", cl=0, ng=1, lat="sq"))
    for s in seqs("abcm", 2):
        out.append(dict(k="c64", s=s, th="list", cl=1, ng=11, lat="sq", dtype="complex64"))
        for sh in ([5, 5], [6, 5], [5, 7]):
            out.append(dict(k="grid", s=s, th="list", cl=3, ng=9, lat="rect", sh=sh))
    # thickness sweep incl. optically thick ones and frequency sweep
    for s in seqs("abcmMv" if quick else "abcmMzvBVNC", 2):
        for d in (0.001, 0.05, 0.5, 3.0, 11.0, 40.0) if quick else (0.001, 0.01, 0.05, 0.2, 0.5, 1.0, 3.0, 7.0, 11.0, 25.0, 40.0, 100.0):
            out.append(dict(k="thick", s=s, th="scale", d=d, cl=2, ng=1, lat="sq"))
    if not quick:
        for s in seqs("abcmz", 4):
            out.append(dict(k="seq4", s=s, th="list", cl=3, ng=1, lat="sq", fr=[0.04, 0.33, 1.37]))
        for s in seqs("abcmzv", 2):
            for fi in range(1, 40):
                out.append(dict(k="freq", s=s, th="list", cl=1, ng=1, lat="sq", fr=[0.05 * fi, 0.05 * fi + 0.017]))
    else:
        for s in seqs("abcm", 1):
            for fi in range(1, 13):
                out.append(dict(k="freq", s=s, th="list", cl=1, ng=1, lat="sq", fr=[0.15 * fi, 0.15 * fi + 0.017]))
    # claddings below vacuum, long wavelengths
    for s in seqs("abcm", 2):
        for cl in (4, 5):
            out.append(dict(k="low", s=s, th="list", cl=cl, ng=1, lat="sq"))
        for fr in ([0.004, 0.02], [0.05, 0.09]):
            out.append(dict(k="low", s=s, th="list", cl=1, ng=1, lat="sq", fr=fr))
    # short wavelengths, also far below the lattice constant
    for s in seqs("abcmM" if quick else "abcmMzvBVNC", 2):
        for fr in ([2.6, 3.1], [4.3, 9.7]):
            for lat in ("sq", "big"):
                out.append(dict(k="high", s=s, th="list", cl=len(s), ng=1 if lat == "sq" else 6, lat=lat, fr=fr))
    return out


def bounds(tier):
    return (
        "all sequences of 5 materials up to 3 layers x uniform/per-layer thickness x 4 claddings x 2 frequencies; "
        "all sequences of 7 materials that agree in one part of the permittivity up to 3 layers; all 2-layer sequences x truncation orders x 4 lattices; all binary stacks of 4..%d layers; all rotations of 4 words of 6..12 layers; all 2-layer stacks of weak-contrast, weak-loss and extreme permittivities; "
        "frequency-dependent stacks, thickness 0.001..%s, frequency sweep, 2-layer stacks at frequencies from 0.004 to 9.7, claddings below vacuum" % ((5, 40) if tier == "quick" else (8, 100))
    )


def run(s, ctx):
    fr = s.get("fr", FREQ)
    n = len(s["s"])
    seq = [s["s"], s.get("t", s["s"])] + [s["s"]] * (len(fr) - 2)
    e = np.array([[trc.cplx(MAT[ch]) for ch in q] for q in seq[: len(fr)]]).T  # NL, NF
    if s["th"] == "one":
        th = TH["one"]
        full = th * n
    elif s["th"] == "list":
        th = full = TH["list"][:n]
    else:
        th = full = [s["d"] * (1 + 0.37 * i) for i in range(n)]
    top, bot = CLAD[s["cl"]]
    sh = s.get("sh", [1, 1])
    eps = np.broadcast_to(e, (sh[0], sh[1], *e.shape))
    R, T = trc.spectrum(
        eps, fr, th, dtype=s.get("dtype"),
        TRCWA_NG=s["ng"], TRCWA_L_grid=LAT[s["lat"]],
        TRCWA_TOP_LAYER_EPS=top, TRCWA_BOTTOM_LAYER_EPS=bot,
    )
    ctx.op(len(fr))
    ctx.check(len(R) == len(fr) and len(T) == len(fr), "one R and T per frequency")
    for i, f in enumerate(fr):
        (r, t), tol = ref.with_tol(ref.tmm, e[:, i], full, top, bot, f)
        if s.get("dtype"):
            tol = tol + 3e-6
        ctx.close(R[i], r, tol[0], "reflectance at f=%g" % f)
        ctx.close(T[i], t, tol[1], "transmittance at f=%g" % f)
        ctx.state(s["s"], s["k"], round(r, 6), round(t, 6))
        ctx.outcome((round(r, 3), round(t, 3)))
        ctx.trace()
