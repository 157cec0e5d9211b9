"""Stand-in models whose output is prescribed per grid point."""
import itertools
import numpy as np


def make():
    import torch

    class Scripted(torch.nn.Module):
        """records the coordinates it is asked for; fn maps an (n,4) array to outputs"""

        def __init__(self, fn, nout):
            super().__init__()
            self.fn, self.nout = fn, nout
            self.seen = []
            self.w = torch.nn.Parameter(torch.zeros(1))

        def forward(self, x):
            a = x.detach().cpu().numpy()
            self.seen.append(a.copy())
            return torch.as_tensor(np.asarray(self.fn(a), float)).reshape(len(a), self.nout) + 0 * self.w

    return Scripted


def ticks(seen):
    """sorted distinct coordinates per axis"""
    a = np.concatenate(seen)
    return [np.unique(np.round(a[:, i], 9)) for i in range(a.shape[1])]


def ranker(tk):
    """coordinates (n,4) -> integer index per axis"""

    def rank(a):
        return np.stack([np.abs(a[:, [i]] - tk[i][None, :]).argmin(1) for i in range(len(tk))], 1)

    return rank


def discover(cfg, nout):
    """coordinate ticks used for this configuration and the checks on them; returns (ticks, error or None)"""
    from . import nid

    m = make()(lambda a: np.full((len(a), nout), 0.5), nout)
    nid.nidn.model_to_eps_grid(m, cfg)
    return ticks(m.seen), np.concatenate(m.seen)


def judge_ticks(ctx, cfg, tk, pts, what=""):
    os_ = cfg.eps_oversampling
    shape = (cfg.Nx // os_, cfg.Ny // os_, cfg.N_layers, cfg.N_freq)
    ctx.check(tuple(len(t) for t in tk) == shape, lambda: "%smodel evaluated at %s distinct coordinates, expected %s" % (what, [len(t) for t in tk], shape))
    r = ranker(tk)(pts)
    ctx.check(len({tuple(x) for x in r}) == int(np.prod(shape)), "%snot every grid point was evaluated" % what)
    for ax in (0, 1):
        if shape[ax] > 2:
            d = np.diff(tk[ax])
            ctx.close(d / d[0], np.ones_like(d), 1e-6, "%sspacing of axis %d" % (what, ax))
        if shape[ax] > 1:
            ctx.close(tk[ax][[0, -1]], [-1.0, 1.0], 1e-6, "%sends of axis %d" % (what, ax))
    th = list(cfg.PER_LAYER_THICKNESS)
    if shape[2] > 1:
        th = th * shape[2] if len(th) == 1 else th
        e = np.cumsum([0] + th[1:])
        z = tk[2] - tk[2][0]
        ctx.close(z / z[-1], e / e[-1], 1e-6, "%slayer depths" % what)
        ctx.close(tk[2][0] / tk[2][-1], -1.0, 1e-6, "%sdepth range is not symmetric: first to last layer" % what)
    if shape[3] > 1:
        f = tk[3] - tk[3][0]
        t = np.asarray(cfg.target_frequencies, float)
        t = t - t[0]
        ctx.close(f / f[-1], t / t[-1], 1e-6, "%sfrequency coordinates" % what)
        # linear: symmetric range; log: zero at half of the highest frequency
        lo = -1.0 if cfg.freq_distribution == "linear" else 2 * cfg.target_frequencies[0] / cfg.target_frequencies[-1] - 1
        ctx.close(tk[3][0] / tk[3][-1], lo, 1e-6, "%srange of the frequency coordinate: first to last" % what)
