"""Independent reading of the material tables."""
import os
from . import nid

_cache = {}


def folder():
    import importlib

    m = importlib.import_module("nidn.materials.material_collection")
    return os.path.join(os.path.dirname(m.__file__), "data")


def tables():
    """name -> list of (wavelength, n, k) for every csv file of the folder."""
    if not _cache:
        for f in sorted(os.listdir(folder())):
            if not f.endswith(".csv"):
                continue
            lines = [l for l in open(os.path.join(folder(), f)).read().split("\n") if l.strip()]
            head = lines[0].split("\t")
            iw, i_n, ik = head.index("Wavelength"), head.index("n"), head.index("k")
            _cache[f[:-4]] = [(float(r[iw]), float(r[i_n]), float(r[ik])) for r in (l.split("\t") for l in lines[1:])]
    return _cache


def expected(name, freq):
    """set of admissible permittivities (two if the wavelength is in the middle of two rows)."""
    wl = 1.0 / freq
    t = tables()[name]
    d = [abs(w - wl) for w, _, _ in t]
    m = min(d)
    out = []
    for (w, n, k), x in zip(t, d):
        if x <= m * (1 + 1e-9) + 1e-15:
            out.append(complex(n, k) ** 2)
    return out
