"""Access to the library under test (always /repo's working tree)."""
import importlib
import os
import sys

REPO = os.environ.get("NIDN_REPO", "/repo")
nidn = None


def load():
    global nidn
    if nidn is not None:
        return nidn
    sys.path.insert(0, REPO)
    import warnings

    warnings.filterwarnings("ignore")
    # the import logs to stderr; keep it quiet
    saved = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        import torch

        torch.set_num_threads(1)
        import nidn as _n
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(null)
    where = os.path.realpath(_n.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("nidn imported from %s" % where)
    from loguru import logger

    logger.remove()
    nidn = _n
    return nidn


def optional(module, name):
    """A non-public helper of the library, or None if it is not there (any more)."""
    try:
        return getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        return None


def cfg(**over):
    """Small valid configuration derived from the library's default one."""
    c = nidn.load_default_cfg()
    base = dict(
        Nx=1,
        Ny=1,
        N_layers=1,
        N_freq=1,
        PER_LAYER_THICKNESS=[1.0],
        target_reflectance_spectrum=[0.5],
        target_transmittance_spectrum=[0.5],
    )
    base.update(over)
    for k, v in base.items():
        c[k] = v
    return c
