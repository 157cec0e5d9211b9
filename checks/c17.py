"""C17: layer builders."""
import itertools
from fractions import Fraction as F
import numpy as np
from mc import nid, mats

ID = "C17"
TECHNIQUE = "exhaustive enumeration of grid sizes, margins, radii, centres, material pairs and call sequences; every grid point of every built layer compared with an exact rational geometric rule"
ASSUMPTIONS = [
    "grids up to 9x9 points and single larger ones; margins, radii and centres from a finite set of rationals on and between grid points",
    "points whose exact distance to the border is below 1e-9 but not exactly representable are not judged; single-point axes only for uniform layers",
]
A = ["0", "1/8", "1/4", "3/10", "33/100", "1/3", "3/8", "2/5", "45/100", "1/2", "3/5", "1/16"]
R = ["0", "1/8", "1/4", "33/100", "1/2", "3/8", "7/10", "1", "3/2", "1/16"]
C = ["1/2", "0", "1", "1/4", "3/8", "3/10", "9/10"]
FR = {1: [0.9], 2: [0.8, 1.1], 3: [0.4, 0.8, 1.3], 4: [0.3, 0.31, 0.9, 2.0], 9: [0.1 * i + 0.25 for i in range(9)], 30: [0.07 * i + 0.2 for i in range(30)]}


def scenarios(tier):
    quick = tier == "quick"
    out = []
    nmax = 6 if quick else 9
    sizes = list(itertools.product(range(1, nmax + 1), repeat=2)) + ([[9, 5], [5, 9], [9, 9], [2, 11]] if quick else [[17, 9], [9, 17], [2, 11], [11, 2]])
    for nx, ny in sizes:
        out.append(dict(k="uni", n=[nx, ny], nf=1 + (nx + ny) % 3))
    for nx, ny in sizes:
        if nx < 2 or ny < 2:
            continue
        out.append(dict(k="sq", n=[nx, ny], nf=1 + (nx + ny) % 3))
        for r in R:
            out.append(dict(k="ci", n=[nx, ny], r=r, nf=1 + (nx + ny) % 3))
    for n, nf in (([32, 32], 4), ([64, 33], 1), ([65, 17], 9), ([10, 24], 30), ([1, 7], 9), ([2, 2], 30), ([40, 3], 4)):
        out.append(dict(k="uni", n=n, nf=nf))
        if min(n) > 1:
            for a in ("0", "33/100", "1/4", "9/20"):
                out.append(dict(k="sq", n=n, nf=nf, a=[a]))
            for r in ("33/100", "1/4", "1"):
                for c in (["1/2", "1/2"], ["3/10", "9/10"], ["0", "1/4"], ["5/4", "-1/8"]):
                    out.append(dict(k="ci", n=n, r=r, nf=nf, c=[c]))
    for nx, ny in ((4, 5), (5, 3)):
        for r in ("1/4", "33/100", "1"):
            out.append(dict(k="ci", n=[nx, ny], r=r, nf=2, c=[["-1/4", "1/2"], ["1/2", "5/4"], ["5/4", "-1/2"], ["2", "2"]]))
    # configuration that was used for something else before
    for a, b in itertools.permutations((1, 2, 3, 4, 9), 2):
        for how in ("train", "collection", "builder"):
            out.append(dict(k="stale", nfs=[a, b], how=how))
    names = range(10)
    for i, j in itertools.product(names, repeat=2):
        for nf in (1, 2, 3):
            out.append(dict(k="mat", n=[5, 3], i=i, j=j, nf=nf))
    for seq in itertools.product(range(4), repeat=3):
        out.append(dict(k="hist", seq=list(seq)))
    out.append(dict(k="default"))
    out.append(dict(k="bad"))
    return out


def bounds(tier):
    return "all grids up to %s points, %d margins, %d radii x up to %d centres, all 100 material pairs x 1..3 frequencies, all sequences of 3 builds with results overwritten in between; 7 larger grids (to 65 points, 30 frequencies), centres outside the cell; configurations used before with other frequencies" % (
        "6x6 (plus 4 larger)" if tier == "quick" else "9x9 (plus 4 larger)", len(A), len(R), len(C) ** 2)


def builder(n, nf):
    c = nid.cfg(Nx=n[0], Ny=n[1], N_freq=nf)
    c.target_frequencies = np.array(FR[nf])
    return nid.nidn.LayerBuilder(c)


def spec(name, nf):
    return np.array([mats.expected(name, f)[0] for f in FR[nf]])


def dyadic(x):
    d = F(x).denominator
    return d & (d - 1) == 0


def judge(ctx, got, n, nf, inside, outer, inner):
    """inside(i,j) -> True / False / None (not judged)"""
    g = got.detach().cpu().numpy()
    ctx.check(g.shape == (n[0], n[1], nf), lambda: "layer shape %s" % (g.shape,))
    so, si = spec(outer, nf), spec(inner, nf)
    for i in range(n[0]):
        for j in range(n[1]):
            w = inside(i, j)
            ctx.op()
            if w is None:
                ok = np.allclose(g[i, j], si, rtol=1e-9) or np.allclose(g[i, j], so, rtol=1e-9)
            else:
                ok = np.allclose(g[i, j], si if w else so, rtol=1e-9)
            ctx.check(ok, lambda: "point (%d,%d) of %s has %s, expected %s material" % (i, j, n, g[i, j], {True: "inner", False: "outer", None: "one of the"}[w]))
    ctx.trace()


def sgn(x, exact):
    """sign of an exact rational, None when too close to be decided in floating point"""
    if x == 0:
        return 0 if exact else None
    if abs(x) < F(1, 10**9):
        return None
    return 1 if x > 0 else -1


def square_rule(n, a):
    a = F(a)

    def rule(i, j):
        res = []
        for k, N in ((i, n[0]), (j, n[1])):
            x = F(k, N - 1)
            ex = dyadic(x) and dyadic(a)
            res += [sgn(x - a, ex), sgn(1 - a - x, ex)]
        if any(r is not None and r <= 0 for r in res):
            return False
        if any(r is None for r in res):
            return None
        return True

    return rule


def circle_rule(n, r, c):
    r, cx, cy = F(r), F(c[0]), F(c[1])

    def rule(i, j):
        x, y = F(i, n[0] - 1), F(j, n[1] - 1)
        ex = all(dyadic(v) for v in (x, y, r, cx, cy))
        q = sgn(r * r - (x - cx) ** 2 - (y - cy) ** 2, ex)
        return None if q is None else q > 0

    return rule


def run(s, ctx):
    names = list(mats.tables())
    k = s["k"]
    n, nf = s.get("n", [4, 5]), s.get("nf", 2)
    m, h = names[4], names[9]
    if k == "uni":
        b = builder(n, nf)
        for x in names:
            judge(ctx, b.build_uniform_layer(x), n, nf, lambda i, j: False, x, x)
    elif k == "sq":
        b = builder(n, nf)
        for a in s.get("a", A):
            judge(ctx, b.build_squared_layer(m, h, a=float(F(a))), n, nf, square_rule(n, a), m, h)
            ctx.state(k, tuple(n), a)
    elif k == "ci":
        b = builder(n, nf)
        for c in s.get("c") or itertools.product(C, repeat=2):
            got = b.build_circle_layer(m, h, radius=float(F(s["r"])), x_center=float(F(c[0])), y_center=float(F(c[1])))
            judge(ctx, got, n, nf, circle_rule(n, s["r"], c), m, h)
            ctx.state(k, tuple(n), s["r"], tuple(c))
    elif k == "mat":
        b = builder(n, nf)
        o, i = names[s["i"]], names[s["j"]]
        judge(ctx, b.build_squared_layer(o, i, a=0.1), n, nf, square_rule(n, "1/10"), o, i)
        judge(ctx, b.build_circle_layer(o, i, radius=0.4), n, nf, circle_rule(n, "2/5", ["1/2", "1/2"]), o, i)
    elif k == "stale":
        a, nf = s["nfs"]
        c = nid.cfg(Nx=n[0], Ny=n[1], N_freq=a)
        c.target_frequencies = np.array(FR[a])
        if s["how"] == "train":
            c.type, c.iterations, c.n_neurons, c.hidden_layers = "classification", 1, 2, 0
            c.N_layers, c.Nx, c.Ny = 1, 1, 1
            c.target_reflectance_spectrum = c.target_transmittance_spectrum = [0.5] * a
            c = nid.nidn.run_training(c)
            c.Nx, c.Ny = n
        elif s["how"] == "collection":
            c.material_collection = nid.nidn.MaterialCollection(c.target_frequencies)
            c.N_materials = 10
        else:
            nid.nidn.LayerBuilder(c).build_squared_layer(m, h)
        c.N_freq = nf
        c.target_frequencies = np.array(FR[nf])
        b = nid.nidn.LayerBuilder(c)
        judge(ctx, b.build_uniform_layer(m), n, nf, lambda i, j: False, m, m)
        judge(ctx, b.build_squared_layer(m, h, a=0.1), n, nf, square_rule(n, "1/10"), m, h)
        judge(ctx, b.build_circle_layer(h, m, radius=0.45), n, nf, circle_rule(n, "45/100", ["1/2", "1/2"]), h, m)
        ctx.state("stale", s["how"], a, nf)
    elif k == "default":
        b = builder([7, 6], 2)
        judge(ctx, b.build_squared_layer(m, h), [7, 6], 2, square_rule([7, 6], "33/100"), m, h)
        judge(ctx, b.build_circle_layer(m, h), [7, 6], 2, circle_rule([7, 6], "33/100", ["1/2", "1/2"]), m, h)
    elif k == "bad":
        b = builder(n, nf)
        for f in (lambda: b.build_uniform_layer("nothing"), lambda: b.build_squared_layer(m, "nothing"), lambda: b.build_circle_layer("nothing", m)):
            try:
                f()
            except Exception:
                pass
            else:
                ctx.fail("unknown material accepted")
            ctx.op()
    elif k == "hist":
        b = builder(n, nf)
        ops = [
            lambda: (b.build_uniform_layer(m), lambda i, j: False, m, m),
            lambda: (b.build_squared_layer(m, h, a=0.1), square_rule(n, "1/10"), m, h),
            lambda: (b.build_circle_layer(h, m, radius=0.45), circle_rule(n, "45/100", ["1/2", "1/2"]), h, m),
            lambda: (b.build_uniform_layer(h), lambda i, j: False, h, h),
        ]
        old = []
        for q in s["seq"]:
            got, rule, o, i = ops[q]()
            judge(ctx, got, n, nf, rule, o, i)
            for g, c in old:
                ctx.check(bool((g == c).all()), "an earlier layer was changed by a later build")
            got *= 3.0
            old.append((got, got.clone()))
        for x in names:
            judge(ctx, b.build_uniform_layer(x), n, nf, lambda i, j: False, x, x)
    ctx.state(k, tuple(n), nf, s.get("r"), s.get("i"), s.get("j"), tuple(s.get("seq", [])))
    ctx.outcome(k)
