"""C06: FDTD engine == reference Yee/CPML stepper, on every step."""
import itertools
import math
import numpy as np
from mc import nid, fdtdref as fr

ID = "C06"
TECHNIQUE = "exhaustive enumeration of scene arrangements and of all ways of splitting a run; lockstep comparison of the real engine with an independent numpy Yee model after every step"
ASSUMPTIONS = [
    "grids up to about 24 cells per axis, up to three objects, material alphabet of four; objects that overlap are all of the absorbing kind",
    "torch CPU backend in double precision (the line-source profile may be single precision)",
]
DX = 1e-7
TIMEOUT = 300


def prepare():
    import nidn.fdtd as f

    f.set_backend("torch")


MATS = {"d": (4.0, None), "a": (2.0, 0.0), "l": (3.0, 4000.0), "h": (1.5, 20000.0), "H": (13.0, 60.0), "L": (0.7, 1.0), "C": (2.5, 4.0e5), "D": (90.0, None)}


def scenarios(tier):
    quick = tier == "quick"
    out = []

    def add(**k):
        out.append(k)

    strip = dict(shape=[22, 3, 1], b=["pxl4", "pxh4", "y"], steps=45)
    # strip scenes as the solver builds them: all ordered pairs of layers
    iv = [(8, 11), (10, 14), (11, 15), (9, 10)]
    one = [(i, m) for i in iv for m in MATS]
    for i, m in one:
        for src in ("line:5:c", "point:5:c"):
            add(k="strip", obj=[[i, m]], src=src, **strip)
    two = [(i, m) for i in iv for m in ("a", "l", "h")]
    for (i, m), (j, n) in itertools.product(two, repeat=2):
        add(k="strip2", obj=[[i, m], [j, n]], src="line:5:c", **strip)
    for ms in itertools.product("alh" if quick else "alhd", repeat=3):
        add(k="strip3", obj=[[(7, 9), ms[0]], [(9, 12), ms[1]], [(12, 16), ms[2]]], src="line:5:c", **strip)
    # sources and waveforms at every position, in/next to the PML and objects
    for kind in ("line", "point"):
        for w in ("c", "h", "r", "cp", "cs"):
            for x in (4, 5, 9, 12, 17) if quick else range(1, 21):
                add(k="src", obj=[[(9, 12), "l"]], src="%s:%d:%s" % (kind, x, w), **strip)
    # periods in seconds, rounded to steps
    for per in (2.6, 3.3, 7.49, 7.51, 11.7, 30.45, 30.95):
        for kind in ("line", "point"):
            add(k="period", obj=[[(9, 12), "l"]], src="%s:5:cs%s" % (kind, per), **strip)
    for y in range(3):
        add(k="srcy", obj=[[(9, 12), "l"]], src="point:6:c:%d" % y, **strip)
    # PML thickness
    for t, u in ((1, 1), (9, 10), (10, 12), (15, 14)):
        add(k="pmlthick", shape=[t + u + 9, 3, 1], b=["pxl%d" % t, "pxh%d" % u, "y"], steps=100, obj=[[(t + 5, t + 7), "l"]], src="point:%d:c" % (t + 3), det=t + 4)
    for t in (2, 3, 5, 7):
        for u in (2, 4, 6):
            add(k="pml", shape=[22, 3, 1], b=["pxl%d" % t, "pxh%d" % u, "y"], steps=60, obj=[[(9, 12), "l"]], src="line:8:c")
    # every boundary combination in 2-d, with and without objects
    ax = {
        "x": [[], ["x"], ["pxl3"], ["pxh3"], ["pxl3", "pxh4"]],
        "y": [[], ["y"], ["pyl3"], ["pyh3"], ["pyl4", "pyh3"]],
        "z": [[], ["z"], ["pzl2"], ["pzh3"], ["pzl2", "pzh2"]],
    }
    for bx, by in itertools.product(ax["x"], ax["y"]):
        for rev in (0, 1):
            b = bx + by
            if rev:
                if not (bx and by):
                    continue
                b = by + bx
            for o in (None, "box"):
                add(k="b2", shape=[11, 12, 1], b=b, steps=30, obj=o, src="point:5:c:6")
    for bx, by, bz in itertools.product(ax["x"], ax["y"], ax["z"]):
        if quick and sum(map(bool, (bx, by, bz))) == 3 and "x" not in bx and "pxl3" not in bx:
            continue
        add(k="b3", shape=[8, 9, 7], b=bx + by + bz, steps=16, obj="box", src="point:4:c:4:3")
    # 1-d and other background
    for shp in ([20, 1, 1], [1, 20, 1], [1, 1, 20]):
        add(k="1d", shape=shp, b=[], steps=30, obj=None, src="mid")
    for eps, mu, cn in itertools.product((1.0, 2.5), (1.0, 1.7), (None, 0.5, 0.2)):
        add(k="bg", shape=[11, 12, 1], b=["pxl3", "pxh3", "y"], steps=30, obj="box", src="point:5:c:6", eps=eps, mu=mu, cn=cn)
    # all compositions of a run
    n = 7 if quick else 10
    for cut in range(2 ** (n - 1)):
        parts, last = [], 0
        for i in range(1, n):
            if cut >> (i - 1) & 1:
                parts.append(i - last)
                last = i
        parts.append(n - last)
        add(k="split", shape=[12, 3, 1], b=["pxl3", "pxh3", "y"], obj=[[(6, 8), "l"]], src="line:4:c", parts=parts, steps=n)
    # detectors at every position / orientation; positions in metres
    for d in range(22):
        add(k="det", obj=[[(9, 12), "l"]], src="line:6:c", det=d, **strip)
    for i in range(6):
        add(k="metres", shape=[22, 3, 1], b=["pxl4", "pxh4", "y"], steps=40, obj=[[(9, 9 + 1 + i), "l"]], src="line:6:c", metres=True)
    # line sources and detectors of any length, orientation and indexing
    n2 = [12, 9, 1]
    lines = [
        [4, [None, None], 0], [4, [2, 7], 0], [4, [3, 5], 0], [[2, 10], 4, 0], [[None, None], 3, 0], [[2, 9], [1, 8], 0],
        [[3, 9], [2, 5], 0], [[4, 6], [0, 9], 0], [{"l": [3, 4, 6]}, {"l": [1, 5, 2]}, {"l": [0, 0, 0]}], [{"l": [7, 7]}, {"l": [2, 4]}, {"l": [0, 0]}],
    ]
    for a in lines:
        for d in lines if not quick else lines[:4] + lines[5:9:2]:
            add(k="lines", shape=n2, b=["pxl3", "pxh3", "y"], steps=14, obj="box", srcs=[dict(kind="line", key=a)], dets=[d])
    for w in (2, 4, 5, 8):
        add(k="width", shape=[14, w, 1], b=["pxl3", "pxh3", "y"], steps=25, obj=[[(7, 10), "l"]], srcs=[dict(kind="line", key=[5, [None, None], 0])], dets=[[4, [None, None], 0], [11, [None, None], 0]])
    n3 = [7, 6, 8]
    for a in ([3, 2, [None, None]], [3, [1, 5], 4], [[1, 6], 3, 2], [[1, 6], [1, 4], [2, 7]], [2, [1, 4], [2, 7]]):
        for d in ([3, 2, [None, None]], [[None, None], 3, 4], [[1, 6], [0, 5], [2, 7]]):
            add(k="line3", shape=n3, b=["pxl2", "pxh2", "y", "z"], steps=12, obj="box", srcs=[dict(kind="line", key=a)], dets=[d])
    # plane sources of every orientation, polarisation and extent
    n3p = [9, 8, 7]
    for flat in range(3):
        for pol in range(3):
            if pol == flat:
                continue
            for ext in ([None, None], [1, 5], [2, 4]) if quick else ([None, None], [1, 5], [2, 4], [0, 3], [3, None]):
                for at in (2, 4):
                    for b in ([], ["y", "z"], ["pxl2", "pxh2", "y", "z"], ["pxl2", "pyl2", "pzl2"]):
                        key = [list(ext) for _ in range(3)]
                        key[flat] = at
                        v = dict(amplitude=-0.7, phase=0.4, period=7) if at == 4 else {}
                        add(k="plane", shape=n3p, b=b, steps=10, obj="box" if ext[0] is None else None, srcs=[dict(kind="plane", key=key, pol=pol, flat=flat, **v)] + ([dict(kind="point", key=[5, 4, 3])] if ext == [1, 5] else []), dets=[[3, 2, [None, None]], [[None, None], 3, 4]])
    # several sources and detectors at once, in every order
    S = [dict(kind="line", key=[4, [None, None], 0]), dict(kind="point", key=[6, 2, 0], period=7, amplitude=0.5), dict(kind="line", key=[5, [1, 6], 0], period=13, phase=1.1, amplitude=-2.0), dict(kind="point", key=[6, 2, 0], period=11)]
    D = [[5, [None, None], 0], [8, [None, None], 0], [[None, None], 2, 0], {"block": [6, 2, 0]}]
    for r in (1, 2, 3):
        for ss in itertools.permutations(range(4), r):
            if quick and r == 3 and sum(i * j for i, j in zip(ss, (1, 2, 3))) % 2:
                continue
            add(k="multi", shape=n2, b=["pxl3", "pxh3", "y"], steps=12, obj="box", srcs=[S[i] for i in ss], dets=[D[i] for i in ss[::-1]])
    # objects given point by point, by negative or single indices, touching every border and inside the absorber
    for m in MATS:
        for v in ([7, 10], [-9, -4], [-5, None], [None, 4], 8, -6, [0, 22], [2, 20], [0, -4], [None, -13], [-22, -13], [-1, None], [5, -9], [17, 22], [9, 9 + 1]):
            add(k="index", obj=[[v, m]], src="line:6:c", **strip)
    for q in range(4):
        for cond in (0, 1, 2):
            add(k="array", shape=[14, 4, 1], b=["pxl3", "pxh3", "y"], steps=25, arr=q, cond=cond, obj=None, src="line:5:c", dets=[[4, [None, None], 0], [11, [None, None], 0]])
    for ms in itertools.product(("dd", "dl", "ld", "da", "ad"), (0, 1, 3)):
        add(k="plain", obj=[[(8, 11), ms[0][0]], [(11 + ms[1], 15 + ms[1]), ms[0][1]]], src="line:5:c", **strip)
    # slabs over the full extent of an axis in 3-d (all field components excited)
    for sl in itertools.product(([0, None], [2, 5], [3, 4]), repeat=3):
        for m in ("d", "l") if quick else MATS:
            for b in (["pxl2", "pxh2", "y", "z"], []):
                add(k="slab3", shape=[7, 6, 8], b=b, steps=12, obj=None, slab=list(sl), mat=m, src="point:3:c:2:3")
    # nothing radiated / very weak and strong sources
    for amp, st in ((0.0, 130), (1e-9, 60), (1e9, 60)):
        add(k="weak", shape=[14, 3, 1], b=["pxl3", "pxh3", "y"], steps=st, obj=[[(7, 10), "l"]], srcs=[dict(kind="point", key=[5, 1, 0], amplitude=amp)], dets=[[4, [None, None], 0], [11, [None, None], 0]])
    # long runs
    for src in ("line:5:c", "line:5:cp", "point:5:cs", "line:5:h", "point:5:r", "line:5:rl", "line:5:hl"):
        add(k="long", shape=[30, 3, 1], b=["pxl6", "pxh6", "y"], steps=320 if quick else 1200, obj=[[(12, 15), "l"], [(15, 19), "a"]], src=src)
    if not quick:
        for (i, m), (j, n), (k, o) in itertools.product(two[::2], repeat=3):
            add(k="strip3o", obj=[[i, m], [j, n], [k, o]], src="line:5:c", **strip)
        for a, b_ in itertools.combinations(range(6, 18), 2):
            for m in "al":
                add(k="ival", obj=[[(a, b_), m]], src="line:5:c", **strip)
                add(k="ivalp", obj=[[(a, b_), m]], src="point:5:r", **strip)
    return out


def bounds(tier):
    return (
        "strip grids 22x3: all ordered pairs of 12 layer placements, triples of materials, source kinds x waveforms x positions, PML thicknesses; "
        "all 5x5 boundary combinations in 2-d (both orders) and 5x5x5 in 3-d; all %d compositions of a %d-step run; plane sources of 3 orientations x 2 polarisations x extents x 4 boundary sets; every step of 10..60 compared"
        % ((64, 7) if tier == "quick" else (512, 10))
    )


def run(s, ctx):
    import torch
    import nidn.fdtd as F

    shape = tuple(s["shape"])
    mt = s.get("metres")
    eps, mu, cn = s.get("eps", 1.0), s.get("mu", 1.0), s.get("cn")
    g = F.Grid(tuple(v * DX for v in shape) if mt else shape, grid_spacing=DX, permittivity=eps, permeability=mu, courant_number=cn)
    y = fr.Yee(shape, DX, eps, mu, cn)
    ctx.check((g.Nx, g.Ny, g.Nz) == shape, "grid shape")
    ctx.close(float(g.time_step), y.dt, 1e-9 * y.dt, "time step")
    pos = (lambda v: v * DX) if mt else (lambda v: v)

    def keyof(k):
        return tuple(slice(*v) if isinstance(v, list) else v["l"] if isinstance(v, dict) else v for v in k)

    def points(k):
        """cells on the diagonal of the block spanned by the slices"""
        if all(isinstance(v, dict) for v in k):
            return list(zip(*(v["l"] for v in k)))
        if not any(isinstance(v, list) for v in k):
            return [tuple(k)]
        lim = [((v[0] or 0, n if v[1] is None else v[1]) if isinstance(v, list) else (v, v)) for v, n in zip(k, shape)]
        m = max(b - a for a, b in lim)
        return [tuple(a + ((b - a) * i) // m for a, b in lim) for i in range(m)]

    def bset(b):
        a = "xyz".index(b[1] if b[0] == "p" else b[0])
        key = [slice(None)] * 3
        if b[0] == "p":
            t = int(b[3:])
            key[a] = slice(0, t) if b[2] == "l" else slice(-t, None)
            g[tuple(key)] = F.PML()
            y.pml(a, "low" if b[2] == "l" else "high", t)
        else:
            key[a] = 0
            g[tuple(key)] = F.PeriodicBoundary()
            y.periodic(a)

    for b in s["b"]:
        bset(b)
    # detectors
    blocks = []
    if "dets" in s:
        dets = []
        for i, d in enumerate(s["dets"]):
            if isinstance(d, dict):
                blocks.append(i)
                d = d["block"]
            dets.append((keyof(d), points(d)))
    elif s["k"] == "det":
        dets = [((s["det"], slice(None), 0), [(s["det"], j, 0) for j in range(shape[1])])]
    elif shape[1] == 3:
        dets = [((pos(v), slice(None), 0), [(v, j, 0) for j in range(3)]) for v in (5, shape[0] - 6)]
    else:
        m = [n // 2 for n in shape]
        dets = []
        for a in range(3):
            if shape[a] > 1:
                key = list(m)
                key[a] = slice(None)
                pts = []
                for j in range(shape[a]):
                    q = list(m)
                    q[a] = j
                    pts.append(tuple(q))
                dets.append((tuple(key), pts))
    real = []
    for key, pts in dets:
        d = F.BlockDetector() if len(real) in blocks else F.LineDetector()
        g[key] = d
        real.append(d)
        y.detectors.append(pts)
    # source
    period = 9
    if "srcs" in s:
        for q in s["srcs"]:
            per, ph, amp = q.get("period", period), q.get("phase", 0.0), q.get("amplitude", 1.0)
            if q["kind"] == "plane":
                # the magnetic field lies in the plane, or along the flat axis' partner
                g[keyof(q["key"])] = F.PlaneSource(period=per, phase_shift=ph, amplitude=amp, polarization="xyz"[q["pol"]])
                box = tuple(slice(*v) if isinstance(v, list) else slice(v, v + 1) for v in q["key"])
                fn = fr.waveform("c", per, y.dt, DX, y.c, phase=ph)
                y.hard.append((box, q["pol"], 3 - q["pol"] - q["flat"], lambda n, fn=fn, amp=amp: amp * fn(n)))
                continue
            pts = points(q["key"])
            cls = F.LineSource if q["kind"] == "line" else F.PointSource
            g[keyof(q["key"])] = cls(period=per, phase_shift=ph, amplitude=amp)
            y.source(pts, fr.line_weights_at(pts, amp) if q["kind"] == "line" else [amp], fr.waveform("c", per, y.dt, DX, y.c, phase=ph))
    elif s["src"] == "mid":
        p = tuple(n // 2 for n in shape)
        g[p] = F.PointSource(period=period)
        y.source([p], [1.0], fr.waveform("c", period, y.dt, DX, y.c))
    else:
        q = s["src"].split(":")
        kind, x, w = q[0], int(q[1]), q[2]
        kw = dict(period=period)
        wv = dict(kind="c", period=period)
        amp = 1.0
        if w == "h":
            per = 12 * y.dt
            kw = dict(period=per, signal_type="hanning", cycle=3, hanning_dt=y.dt * 1.5)
            wv = dict(kind="hanning", period=per, cycle=3, hdt=y.dt * 1.5)
        elif w == "r":
            per = 10 * y.dt
            kw = dict(period=per, signal_type="ricker")
            wv = dict(kind="ricker", period=per)
        elif w == "hl":
            per = 40 * y.dt
            kw = dict(period=per, signal_type="hanning", cycle=5, hanning_dt=y.dt * 2.0)
            wv = dict(kind="hanning", period=per, cycle=5, hdt=y.dt * 2.0)
        elif w == "rl":
            per = 45 * y.dt
            kw = dict(period=per, signal_type="ricker")
            wv = dict(kind="ricker", period=per)
        elif w == "cp":
            amp = 2.5
            kw = dict(period=period, amplitude=amp, phase_shift=0.7)
            wv = dict(kind="c", period=period, phase=0.7)
        elif w[:2] == "cs":
            per = float(w[2:] or 11.3) * y.dt
            kw = dict(period=per)
            wv = dict(kind="c", period=per)
        fn = fr.waveform(dt=y.dt, dx=DX, c=y.c, **wv)
        if kind == "line":
            g[pos(x), :, 0] = F.LineSource(**kw)
            y.source([(x, j, 0) for j in range(shape[1])], fr.line_weights(shape[1], amp), fn)
        else:
            yy = int(q[3]) if len(q) > 3 else 1
            zz = int(q[4]) if len(q) > 4 else 0
            g[x, yy, zz] = F.PointSource(**kw)
            y.source([(x, yy, zz)], [amp], fn)
    # objects
    objs = s["obj"]
    if objs == "box":
        e1 = [min(6, n) if n > 1 else 1 for n in shape]
        e2 = [min(9, n - 1) if n > 1 else 1 for n in shape]
        boxes = [
            (tuple((2 if n > 1 else 0, e) for n, e in zip(shape, e1)), "l"),
            (tuple((4 if n > 1 else 0, e) for n, e in zip(shape, e2)), "h"),
        ]
    elif "slab" in s:
        boxes = [(tuple((a, n if b is None else b) for (a, b), n in zip(s["slab"], shape)), s["mat"])]
    elif objs:
        boxes = [((i, (0, shape[1]), (0, shape[2])), m) for i, m in objs]
    else:
        boxes = []
    for box, m in boxes:
        e, c = MATS[m]
        if s["k"] == "index":
            v, n = box[0], shape[0]
            key = (slice(*v) if isinstance(v, (list, tuple)) else v, slice(None), slice(None))
            lo, hi = (v[0] or 0, n if v[1] is None else v[1]) if isinstance(v, (list, tuple)) else (v, v + 1 or n)
            box = ((lo + n if lo < 0 else lo, hi + n if hi < 0 else hi),) + box[1:]
            g[key] = F.Object(permittivity=e) if c is None else F.AbsorbingObject(permittivity=torch.tensor(e), conductivity=torch.tensor(c))
            y.obj(box, e, c)
            continue
        key = tuple(slice(pos(a) if ax == 0 else a, pos(b) if ax == 0 else b) for ax, (a, b) in enumerate(box))
        if c is None:
            g[key] = F.Object(permittivity=e)
        else:
            g[key] = F.AbsorbingObject(permittivity=torch.tensor(e), conductivity=torch.tensor(c))
        y.obj(box, e, c)
    if "arr" in s:
        box = ((7, 10), (0, 4), (0, 1)) if s["arr"] != 3 else ((6, 11), (1, 3), (0, 1))
        dims = tuple(b - a for a, b in box)
        n = np.arange(np.prod(dims)).reshape(dims)
        e = [1.5 + n * 0.5, 6.0 - n * 0.25, np.where(n % 2, 5.0, 2.0), 2.0 + (n % 3)][s["arr"]].astype(float)
        c = [None, 3000.0, 500.0 * (1 + (n * 7) % 5)][s["cond"]]
        key = tuple(slice(a, b) for a, b in box)
        if c is None:
            g[key] = F.Object(permittivity=torch.tensor(e))
        else:
            g[key] = F.AbsorbingObject(permittivity=torch.tensor(e), conductivity=torch.as_tensor(c))
        y.obj(box, e[..., None], c if c is None or np.isscalar(c) else c[..., None])
    # run
    steps = s["steps"]
    refE, refH = [], []
    if "parts" in s:
        chunks = s["parts"]
    else:
        chunks = [1] * steps
    done = 0
    # the profile of a line source may be single precision
    # (and the constants have seven digits in the Ricker pulse)
    rel = 1e-6 if "line" in str(s.get("srcs")) or any(q in str(s.get("src")) for q in ("line", ":r")) else 1e-8
    top = 0.0
    for ci, n in enumerate(chunks):
        if "parts" in s:
            if ci % 3 == 2:
                g.run((n + 0.4) * y.dt, progress_bar=False)  # seconds
            else:
                g.run(n, progress_bar=False)
        else:
            g.step() if done % 2 else g.run(1, progress_bar=False)
        ctx.op(n)
        for _ in range(n):
            a, b = y.step()
            refE.append(a)
            refH.append(b)
            done += 1
        E, H = g.E.detach().numpy(), g.H.detach().numpy()
        big = max(np.abs(y.E).max(), 0.1 if rel > 1e-7 else 1e-9)
        top = max(top, big)
        tol = rel * top + 1e-13  # the absorber adds 1e-16 per step to keep gradients
        ctx.close(E, y.E, tol, "electric field after step %d" % done)
        ctx.close(H, y.H, tol, "magnetic field after step %d" % done)
        ctx.state(s["k"], s["b"], np.round(y.E, 9).tobytes())
    ctx.check(int(g.time_steps_passed) == steps, "step count")
    scale = rel * top + 1e-13
    for i, d in enumerate(real):
        v = d.detector_values()
        if i in blocks:
            v = {w: [t[0][0] for t in v[w]] for w in "EH"}
        ctx.check(len(v["E"]) == steps and len(v["H"]) == steps, lambda: "detector has %d/%d records for %d steps" % (len(v["E"]), len(v["H"]), steps))
        for t in range(steps):
            ctx.close(v["E"][t], refE[t][i], scale, "detector %d E record of step %d" % (i, t))
            ctx.close(v["H"][t], refH[t][i], scale, "detector %d H record of step %d" % (i, t))
    ctx.trace()
    ctx.outcome(np.round(np.abs(y.E).sum(), 6))
