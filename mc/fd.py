"""Driving the FDTD solver of the library from a small parameter dict."""
import numpy as np
from . import nid, trc

BASE = dict(
    thick=[0.5],
    pml=1.5,
    free=1.0,
    gap=2,
    src=[1.6, 0.15],
    stype="line",
    pulse="continuous",
    min_pts=10,
    range=[1e-6, 2e-6],
    niter=90,
)


def cfg(p, n_layers, n_freq, **over):
    c = nid.cfg(
        solver="FDTD",
        N_layers=n_layers,
        N_freq=n_freq,
        PER_LAYER_THICKNESS=[float(x) for x in p["thick"]],
        FDTD_source_type=p["stype"],
        FDTD_pulse_type=p["pulse"],
        FDTD_pml_thickness=p["pml"],
        FDTD_source_position=list(p["src"]),
        FDTD_free_space_distance=p["free"],
        FDTD_niter=p["niter"],
        FDTD_gridpoints_from_material_to_detector=p["gap"],
        FDTD_min_gridpoints_per_unit_magnitude=p["min_pts"],
        physical_wavelength_range=list(p["range"]),
        target_reflectance_spectrum=[0.5] * n_freq,
        target_transmittance_spectrum=[0.5] * n_freq,
        **over
    )
    return c


def wavelengths(p, n_freq, dist="linear"):
    lo, hi = 1e-6 / p["range"][1], 1e-6 / p["range"][0]
    f = np.linspace(lo, hi, n_freq) if dist == "linear" else np.logspace(np.log10(lo), np.log10(hi), n_freq)
    return 1e-6 / f


def params(s):
    p = dict(BASE)
    p.update(s.get("p", {}))
    return p


def safe(p, n_layers):
    """all positions well inside a cell, or exactly representable"""
    th = p["thick"] * n_layers if len(p["thick"]) == 1 and n_layers > 1 else p["thick"]
    s = max(1e-6 / (p["range"][0] * 0.1), p["min_pts"])
    x = p["pml"] + p["free"]
    pts = [x, p["pml"], p["src"][0], p["src"][1], 2 * x + sum(th)]
    for d in th:
        x += d
        pts.append(x)
    for v in pts:
        fr = (v * s) % 1.0
        if fr < 0.01 or fr > 0.99:
            v10 = round(v * s * 8) / 8
            if abs(v * s - v10) > 0 or abs(fr) > 1e-15:
                return False
    return True


def sim(eps, p, dist="linear", shape=(1, 1)):
    """eps: array [NL, NF], uniform layers on a shape[0] x shape[1] grid -> R, T (numpy), through compute_spectrum."""
    import torch

    eps = np.asarray(eps, complex)
    c = cfg(p, eps.shape[0], eps.shape[1], freq_distribution=dist, Nx=shape[0], Ny=shape[1])
    R, T = nid.nidn.compute_spectrum(torch.tensor(np.tile(eps[None, None], (shape[0], shape[1], 1, 1))), c)
    return trc.to_np(R), trc.to_np(T)
