"""C16: catalogue permittivities."""
import itertools
import os
import numpy as np
from mc import nid, mats

ID = "C16"
TECHNIQUE = "exhaustive enumeration: every row and every row boundary of every material table, all frequency lists up to length 3 over an alphabet, all subsets of skipped materials, all directory orders used; real catalogue compared with an independent reading of the tables"
ASSUMPTIONS = [
    "requested wavelengths: every tabulated one, both sides of every midpoint, both ends and beyond",
    "ties between two rows admit either row",
]
ALPHA = [0.031, 0.4, 0.4000001, 1.0, 2.7, 33.0, 0.004]


def scenarios(tier):
    quick = tier == "quick"
    out = []
    names = list(mats.tables())
    for L in (1, 2, 3) if quick else (1, 2, 3, 4):
        for fr in itertools.product(ALPHA[: 5 if L > 2 and quick else None], repeat=L):
            out.append(dict(k="list", fr=list(fr), arr=(len(out) % 2)))
    step = 64
    rows = sorted({w for t in mats.tables().values() for w, _, _ in t})
    pts = []
    for a in names:
        t = mats.tables()[a]
        ws = [w for w, _, _ in t]
        pts += ws
        for x, y in zip(ws, ws[1:]):
            m = (x + y) / 2
            g = y - x
            pts += [m - 1e-5 * g, m + 1e-5 * g]
            if not quick:
                pts += [x + 0.25 * g, x + 0.49 * g, x + 0.51 * g, x + 0.75 * g, 2 / (1 / x + 1 / y), (x * y) ** 0.5]
        pts += [ws[0] * 0.5, ws[0] * 0.999, ws[-1] * 1.001, ws[-1] * 3]
    pts = sorted(set(pts))
    for i in range(0, len(pts), step):
        out.append(dict(k="rows", wl=pts[i: i + step]))
    # the same points in long, descending and interleaved lists
    for i in range(0, len(pts), 1500):
        w = pts[i: i + 1500]
        out.append(dict(k="rows", wl=w[::-5]))
        out.append(dict(k="rows", wl=w[::7] + w[3::7]))
    for r in range(len(names)):
        for sub in itertools.combinations(range(len(names)), r):
            out.append(dict(k="skip", sub=list(sub)))
    for i in range(len(names)):
        out.append(dict(k="almost", i=i))
    for i in range(len(names) + 3):
        out.append(dict(k="dir", perm=i))
    for a, b in itertools.product(range(6), repeat=2):
        out.append(dict(k="hist", seq=[a, b]))
    for a in itertools.product(range(6), repeat=3):
        out.append(dict(k="hist", seq=list(a)))
    out.append(dict(k="bad"))
    return out


def bounds(tier):
    return "all %s rows, row boundaries and ends of the 10 tables, in blocks of 64 and in long unsorted lists; all frequency lists over %d values up to length %d; all %d proper subsets of skipped materials, entries that are nearly material names; %d directory orders; all sequences of 2 and 3 constructions of 6 kinds" % (
        "6702", len(ALPHA), 3 if tier == "quick" else 4, 1023, 13)


def compare(ctx, mc, freqs, skip=(), order=None):
    names = [n for n in mats.tables() if n not in skip]
    ctx.check(list(mc.material_names) == (order or names), lambda: "material names %s, expected %s" % (mc.material_names, names))
    ctx.check(mc.N_materials == len(names), "number of materials %s" % mc.N_materials)
    em = mc.epsilon_matrix.detach().cpu().numpy()
    ctx.check(em.shape == (len(names), len(freqs)), lambda: "matrix shape %s, expected %s" % (em.shape, (len(names), len(freqs))))
    for i, n in enumerate(names):
        row = mc[n].detach().cpu().numpy()
        ctx.check(row.shape == (len(freqs),), lambda: "%s: shape %s for %d frequencies" % (n, row.shape, len(freqs)))
        for j, f in enumerate(freqs):
            exp = mats.expected(n, f)
            ctx.op()
            ctx.check(
                any(abs(complex(row[j]) - complex(e)) <= 1e-9 * (1 + abs(e)) for e in exp) and row[j] == em[i, j],
                lambda: "%s at frequency %r: %r (matrix %r), tabulated %r" % (n, f, row[j], em[i, j], exp),
            )
            ctx.state(n, complex(row[j]))
    for n in skip:
        try:
            mc[n]
        except Exception:
            pass
        else:
            ctx.fail("skipped material %s is available" % n)
    ctx.trace(len(names))


class Scan:
    def __init__(self, items):
        self.items = iter(items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def close(self):
        pass


def kinds(names):
    return [
        ([1.0], None),
        ([0.25, 1.0, 2.5], None),
        ([2.5, 0.25], [names[0]]),
        ([1.0], [names[1], names[4]]),
        ([0.4], names[:9]),
        ([1.0, 1.0], [names[-1], "unknown"]),
    ]


def run(s, ctx):
    MC = nid.nidn.MaterialCollection
    names = list(mats.tables())
    if s["k"] == "list":
        fr = s["fr"]
        compare(ctx, MC(np.array(fr) if s["arr"] else list(fr)), fr)
    elif s["k"] == "rows":
        fr = [1.0 / w for w in s["wl"]]
        compare(ctx, MC(fr), fr)
    elif s["k"] == "skip":
        sk = [names[i] for i in s["sub"]]
        compare(ctx, MC([0.7, 1.1], to_skip=sk), [0.7, 1.1], skip=sk)
        ctx.check(sk == [names[i] for i in s["sub"]], "the list of skipped materials was modified")
    elif s["k"] == "almost":
        # entries that are not the name of a material skip nothing
        n = names[s["i"]]
        parts = [n.split("_")[0], n.split("_")[-1], n[:-1], n[1:], n.upper(), n.capitalize(), n + "_", " " + n, n + ".csv", "", n + n]
        parts = [x for x in parts if x not in names]
        for sk in [[x] for x in parts] + [parts, tuple(parts), set(parts)]:
            compare(ctx, MC([0.7, 1.1], to_skip=sk), [0.7, 1.1])
        other = names[(s["i"] + 1) % len(names)]
        compare(ctx, MC([0.7], to_skip=parts + [other]), [0.7], skip=[other])
        compare(ctx, MC([0.7], to_skip=(other,)), [0.7], skip=[other])
    elif s["k"] == "dir":
        p = s["perm"]

        def perm(x):
            x = list(x)
            if p == 0:
                return x
            if p == 1:
                return x[::-1]
            return x[p % len(x):] + x[: p % len(x)]

        so, lo = os.scandir, os.listdir

        def scandir(path="."):
            with so(path) as it:
                return Scan(perm(sorted(it, key=lambda e: e.name)))

        os.scandir, os.listdir = scandir, lambda path=".": perm(sorted(lo(path)))
        try:
            mc = MC([0.7, 1.1])
            ctx.op()
        finally:
            os.scandir, os.listdir = so, lo
        ctx.check(list(mc.material_names) == names, lambda: "order of materials %s" % mc.material_names)
        compare(ctx, mc, [0.7, 1.1])
    elif s["k"] == "hist":
        ks = kinds(names)
        made = []
        for i in s["seq"]:
            fr, sk = ks[i]
            made.append((MC(list(fr), to_skip=sk), fr, [x for x in (sk or []) if x in names]))
            for mc, f, k in made:
                compare(ctx, mc, f, skip=k)
    else:
        for fr in ([], np.array([]), ()):
            try:
                MC(fr)
            except Exception:
                pass
            else:
                ctx.fail("empty frequency list accepted")
        mc = MC([1.0, 2.0])
        for n in ["Germanium", "germanium ", "", "removed", "zirconium", "germanium.csv", "german", 0, None, "gallium_arsenid"]:
            try:
                mc[n]
            except Exception:
                pass
            else:
                ctx.fail("unknown material %r accepted" % (n,))
            ctx.op()
    ctx.outcome((s["k"], len(s.get("fr", s.get("wl", [])))))
