"""Driving the RCWA solver through the public API."""
import numpy as np
from . import nid


def cplx(x):
    """JSON-able complex: float or [re, im]."""
    return complex(*x) if isinstance(x, (list, tuple)) else complex(x)


def make_cfg(shape, freqs, thick, **over):
    Nx, Ny, NL, NF = shape
    c = nid.cfg(
        Nx=Nx,
        Ny=Ny,
        N_layers=NL,
        N_freq=NF,
        PER_LAYER_THICKNESS=[float(t) for t in thick],
        target_reflectance_spectrum=[0.5] * NF,
        target_transmittance_spectrum=[0.5] * NF,
        **over
    )
    c.target_frequencies = freqs
    return c


def spectrum(eps, freqs, thick, dtype=None, **over):
    """eps: array [Nx,Ny,NL,NF]; returns numpy R, T."""
    import torch

    eps = np.asarray(eps, dtype=complex)
    c = make_cfg(eps.shape, list(freqs), thick, **over)
    e = torch.tensor(eps)
    if dtype:
        e = e.to(getattr(torch, dtype))
    R, T = nid.nidn.compute_spectrum(e, c)
    return to_np(R), to_np(T)


def to_np(x):
    out = []
    for v in x:
        out.append(float(v.detach().real if hasattr(v, "detach") else v))
    return np.array(out)
