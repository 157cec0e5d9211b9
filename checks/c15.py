"""C15: networks."""
import itertools
import numpy as np
from mc import nid

ID = "C15"
TECHNIQUE = "exhaustive enumeration of network type x depth x width x frequency factor x outputs x batch size x seed; forward, row independence, parameter influence, gradients and participation in training checked on the real networks"
ASSUMPTIONS = [
    "depths 0..12, widths up to 128, random initialisations from a fixed set of seeds",
    "influence of a parameter tensor or input is demanded for at least one seed (a ReLU network may be dead for a particular initialisation)",
]
SEEDS = list(range(6))
RANGES = [[-100.0, 100.0, 0.0, 3.0], [1.0, 12.0, 0.0, 0.0], [-20.0, -1.0, -2.0, 5.0], [2.0, 2.0, 1.0, 1.5]]


def scenarios(tier):
    quick = tier == "quick"
    out = []
    widths = [1, 2, 8, 16] if quick else [1, 2, 3, 8, 16, 32]
    for mt in ("siren", "nerf"):
        for h in range(0, 11):
            for w in widths:
                for om in ([1.0] if mt == "nerf" else [0.5, 1.0, 30.0]):
                    for no in (2, 10):
                        out.append(dict(k="net", mt=mt, h=h, w=w, om=om, no=no, dim=4))
            for w in (65, 128):
                out.append(dict(k="net", mt=mt, h=h, w=w, om=1.0, no=2, dim=4))
            for dim in (1, 2, 3, 7):
                out.append(dict(k="net", mt=mt, h=h, w=8, om=1.0, no=2, dim=dim))
    for h in range(0, 11):
        out.append(dict(k="omega", h=h))
    for mt in ("siren", "nerf"):
        for h in range(0, 13):
            for w in (1, 3, 8, 40):
                for om in ([1.0] if mt == "nerf" else [0.5, 1.0, 7.0, 30.0, 45.0, 100.0]):
                    for seed in range(2):
                        out.append(dict(k="arch", mt=mt, h=h, w=w, om=om, seed=seed))
    for mt in ("siren", "nerf"):
        for h in (0, 1, 4, 5, 6, 10):
            out.append(dict(k="batch", mt=mt, h=h))
    for mt in ("siren", "nerf", "voxel"):
        for typ in ("regression", "classification") if mt != "voxel" else ("regression",):
            for h in ((0, 1, 3, 4, 5, 6, 9) if quick else range(0, 11)) if mt != "voxel" else (1,):
                out.append(dict(k="train", mt=mt, type=typ, h=h))
    for n in itertools.product((1, 2, 3), (1, 2), (1, 3), (1, 2)):
        for r in range(len(RANGES)):
            out.append(dict(k="voxel", n=list(n), r=r))
    out.append(dict(k="bad"))
    return out


def bounds(tier):
    return "siren and nerf: depth 0..10 x width %s x 3 frequency factors x {2,10} outputs x input dimension {1,2,3,4,7} x 6 seeds, batches of 1,2,5 and 1..1500; outputs against the layer formula for depth 0..12 x 4 widths x 6 frequency factors up to 100; voxel: 24 shapes x 4 ranges x 6 seeds; training participation for all types" % ("1,2,8,16" if tier == "quick" else "1,2,3,8,16,32")


def build(mt, h, w, om, no, dim, seed, **over):
    import torch
    from nidn.training.model.init_network import init_network

    c = nid.cfg(model_type=mt, hidden_layers=h, n_neurons=w, siren_omega=om, encoding_dim=dim, type="regression" if no == 2 else "classification", **over)
    c.out_features = no
    torch.manual_seed(seed)
    return init_network(c), c


def points(dim, seed):
    rng = np.random.RandomState(seed)
    return np.concatenate([rng.uniform(-1, 1, (4, dim)), rng.uniform(-30, 30, (1, dim))])


def run(s, ctx):
    import torch

    k = s["k"]
    if k == "net":
        changed_in = False
        infl, grads, names = set(), set(), None
        for seed in SEEDS:
            m, c = build(s["mt"], s["h"], s["w"], s["om"], s["no"], s["dim"], seed)
            x = torch.tensor(points(s["dim"], seed))
            x0 = x.clone()
            y = m(x)
            ctx.op()
            ctx.check(tuple(y.shape) == (5, s["no"]), lambda: "output shape %s" % (tuple(y.shape),))
            ctx.check(bool(torch.isfinite(y).all()) and bool((y >= 0).all()) and bool((y <= 1).all()), lambda: "output outside [0,1]: %s" % y)
            ctx.check(bool((x == x0).all()), "the inputs were modified")
            for b in ([0], [1], [2], [3], [4], [3, 1], [4, 0], [1, 1]):
                z = m(x[b])
                ctx.close(z, y[b].detach(), 1e-9, "row depends on the other rows of the batch")
                ctx.op()
            ctx.close(m(x), y.detach(), 0, "second evaluation differs")
            yd = y.detach().numpy()
            if np.abs(yd - yd[0]).max() > 1e-12:
                changed_in = True
            ps = dict(m.named_parameters())
            names = set(ps)
            mats = [p for p in ps.values() if p.dim() == 2]
            ctx.check(len(mats) == s["h"] + 2, lambda: "%d weight matrices for %d hidden layers" % (len(mats), s["h"]))
            ctx.check(all(p.shape[0] == s["w"] for p in mats[:-1]) and mats[-1].shape[0] == s["no"], lambda: "layer widths %s" % [tuple(p.shape) for p in mats])
            y.sum().backward()
            for q, p in ps.items():
                ctx.check(p.requires_grad, "%s is not trainable" % q)
                ctx.check(p.grad is not None and bool(torch.isfinite(p.grad).all()), lambda: "%s has no finite gradient" % q)
                if float(p.grad.abs().max()) > 0:
                    grads.add(q)
                # influence
                with torch.no_grad():
                    old = p.clone()
                    p.add_(0.01 * (1 + p.abs()) * torch.linspace(-1, 1.3, p.numel()).reshape(p.shape))
                    if float((m(x) - y).abs().max()) > 1e-13:
                        infl.add(q)
                    p.copy_(old)
                ctx.op()
            ctx.state(s["mt"], s["h"], s["w"], s["om"], s["no"], s["dim"], seed, yd.round(9).tobytes())
            ctx.trace()
        if s["w"] >= 8:
            ctx.check(changed_in, "output does not depend on the inputs")
            ctx.check(infl == names, lambda: "parameters without influence: %s" % sorted(names - infl))
            ctx.check(grads == names, lambda: "parameters without gradient: %s" % sorted(names - grads))
        ctx.outcome((s["mt"], s["h"]))
    elif k == "arch":
        m, c = build(s["mt"], s["h"], s["w"], s["om"], 2, 4, s["seed"])
        rng = np.random.RandomState(s["seed"])
        ps = list(m.parameters())
        # biases away from their initial zeros
        with torch.no_grad():
            for p in ps:
                if p.dim() == 1:
                    p.copy_(torch.tensor(rng.uniform(-0.4, 0.4, p.shape)))
        x = np.concatenate([rng.uniform(-1, 1, (6, 4)), rng.uniform(-1, 1, (12, 4)) * np.array([1, 1, 1000, 32]), np.zeros((1, 4)), np.array([[1, -1, 1000, 32], [-1, 1, -1000, -32]])])
        got = m(torch.tensor(x)).detach().numpy()
        ws = [p.detach().numpy() for p in ps if p.dim() == 2]
        bs = [p.detach().numpy() for p in ps if p.dim() == 1]
        ctx.check(len(ws) == len(bs), "every layer has one weight matrix and one bias")
        wide = [i for i, W in enumerate(ws) if i and W.shape[1] != s["w"]]
        ctx.check(wide == ([5] if s["mt"] == "nerf" and s["h"] >= 5 else []), lambda: "layers %s take additional inputs" % wide)
        a = x
        for i, (W, b) in enumerate(zip(ws, bs)):
            if W.shape[1] == a.shape[1] + x.shape[1] and s["mt"] == "nerf" and 0 < i < len(ws) - 1:
                a = np.concatenate([a, x], 1)
            a = a @ W.T + b
            if i < len(ws) - 1:
                a = np.sin(s["om"] * a) if s["mt"] == "siren" else np.maximum(a, 0)
        with np.errstate(over="ignore"):
            e = 1 / (1 + np.exp(-a))
        ctx.op(len(x))
        ctx.close(got, e, 1e-7, "%s with %d hidden layers of width %d: output of the %s" % (s["mt"], s["h"], s["w"], "sine layers with the configured frequency factor" if s["mt"] == "siren" else "ReLU layers"))
        ctx.state("arch", s["mt"], s["h"], s["w"], s["om"], s["seed"])
        ctx.outcome(("arch", s["mt"], s["h"]))
        ctx.trace()
    elif k == "batch":
        m, c = build(s["mt"], s["h"], 8, 1.0, 2, 4, 1)
        rng = np.random.RandomState(3)
        x = torch.tensor(rng.uniform(-1, 1, (1500, 4)) * np.array([1, 1, 1000, 32]))
        y = m(x).detach()
        ctx.check(tuple(y.shape) == (1500, 2), "output shape %s" % (tuple(y.shape),))
        for n in (1, 7, 100, 128, 256, 500, 513, 1000, 1024, 1025, 1400):
            ctx.close(m(x[:n]), y[:n], 1e-7, "first %d rows evaluated alone" % n)
            ctx.close(m(x[-n:]), y[-n:], 1e-7, "last %d rows evaluated alone" % n)
            ctx.op(2)
            ctx.state("batch", s["mt"], s["h"], n)
        # the gradient of a sum over a batch is the sum of the gradients of its parts
        def grad(rows):
            g = torch.autograd.grad(m(rows).sum(), list(m.parameters()))
            return torch.cat([q.reshape(-1) for q in g])

        x = x / torch.tensor([1, 1, 1000.0, 32.0])
        for n in (2, 7, 64, 100, 300, 1500):
            whole = grad(x[:n])
            for cut in sorted({1, n // 2, n - 1}):
                parts = grad(x[:cut]) + grad(x[cut:n])
                ctx.close(whole, parts, 1e-8 * n, "parameter gradient of %d rows against that of its first %d and the rest" % (n, cut))
                ctx.op(2)
            ctx.state("batchgrad", s["mt"], s["h"], n)
        ctx.outcome("batch")
        ctx.trace()
    elif k == "omega":
        a, _ = build("siren", s["h"], 8, 1.0, 2, 4, 0)
        x = torch.tensor(points(4, 1))
        for om in (0.5, 7.0, 30.0, 45.0, 100.0):
            b, _ = build("siren", s["h"], 8, om, 2, 4, 0)
            b.load_state_dict(a.state_dict())
            ctx.check(float((a(x) - b(x)).abs().max()) > 1e-9, "siren_omega %g has no influence" % om)
            ctx.op(2)
            ctx.state("omega", s["h"], om)
        ctx.outcome("omega")
    elif k == "train":
        moved = {}
        allp = set()
        for seed in SEEDS:
            c = nid.cfg(
                model_type=s["mt"], type=s["type"], hidden_layers=s["h"], n_neurons=8, seed=seed, iterations=3, N_layers=2, N_freq=2, learning_rate=1e-2,
                PER_LAYER_THICKNESS=[0.31], real_min_eps=1.0, real_max_eps=6.0, imag_max_eps=0.5, physical_wavelength_range=[0.6e-6, 1.9e-6],
                target_reflectance_spectrum=[0.7, 0.3], target_transmittance_spectrum=[0.2, 0.6], L=2.0, siren_omega=1.0,
            )
            c.out_features = 2 if s["type"] == "regression" else 10
            from nidn.training.model.init_network import init_network

            torch.manual_seed(seed)
            m = init_network(c)
            c.model = m
            snaps = []
            h = m.register_forward_pre_hook(lambda mod, a: snaps.append({q: p.detach().clone() for q, p in mod.named_parameters()}))
            c = nid.nidn.run_training(c)
            h.remove()
            ctx.op(3)
            ctx.check(len(c.results.loss_log) == 3 and np.isfinite(c.results.loss_log).all(), lambda: "training logs %s" % c.results.loss_log)
            allp |= set(snaps[0])
            for q in snaps[0]:
                d = (snaps[-1][q] - snaps[0][q]).abs()
                ctx.check(bool(torch.isfinite(torch.view_as_real(snaps[-1][q]) if snaps[-1][q].is_complex() else snaps[-1][q]).all()), "%s became non-finite" % q)
                if s["mt"] == "voxel":
                    if bool((d > 0).all()):
                        moved[q] = True
                elif float(d.max()) > 0:
                    moved[q] = True
            ctx.state("train", s["mt"], s["type"], s["h"], seed)
            ctx.trace()
        ctx.check(set(moved) == allp, lambda: "parameters that never take part in training: %s" % sorted(allp - set(moved)))
        ctx.outcome(("train", s["mt"], s["type"]))
    elif k == "voxel":
        r = RANGES[s["r"]]
        nx, ny, nl, nf = s["n"]
        inits = set()
        for seed in SEEDS:
            m, c = build("voxel", 1, 4, 1.0, 2, 4, seed, Nx=nx, Ny=ny, N_layers=nl, N_freq=nf, real_min_eps=r[0], real_max_eps=r[1], imag_min_eps=r[2], imag_max_eps=r[3], avoid_zero_eps=False)
            ps = list(m.parameters())
            ctx.check(sum(p.numel() * (1 if p.is_complex() else 0.5) for p in ps) == nx * ny * nl * nf, "voxel model does not hold one value per grid point")
            ctx.check(all(p.requires_grad for p in ps), "voxel values not trainable")
            y = m()
            ctx.check(tuple(y.shape) == (nx, ny, nl, nf), lambda: "voxel shape %s" % (tuple(y.shape),))
            g = y.detach().numpy()
            t = 1e-4
            ctx.check(bool((g.real >= r[0] - t).all() and (g.real <= r[1] + t).all() and (g.imag >= r[2] - t).all() and (g.imag <= r[3] + t).all()), lambda: "initial permittivity outside the range: %s" % g)
            c.target_frequencies = np.linspace(0.5, 1.0, nf)
            eps, _ = nid.nidn.model_to_eps_grid(m, c)
            (eps.real.sum() + 2 * eps.imag.sum()).backward()
            gr = ps[0].grad
            ctx.check(gr is not None, "voxel values receive no gradient")
            gg = torch.view_as_real(gr).numpy()
            ctx.check(bool(np.isfinite(gg).all()), "non-finite voxel gradient")
            if r[0] < r[1]:
                ctx.check(bool((gg[..., 0] != 0).all()), "a voxel receives no gradient")
            # each value is free: changing one changes that grid point only
            for p in np.ndindex(nx, ny, nl, nf):
                with torch.no_grad():
                    old = ps[0][p].item()
                    mid = complex((r[0] + r[1]) / 2 + 0.37 * (r[1] - r[0]) / 2, (r[2] + r[3]) / 2)
                    ps[0][p] = mid
                    e2, _ = nid.nidn.model_to_eps_grid(m, c)
                    d = (e2 - eps).abs().numpy()
                    ps[0][p] = old
                mask = np.ones(d.shape, bool)
                mask[p] = False
                ctx.check(bool((d[mask] == 0).all()), "changing one voxel changes another grid point")
                ctx.check(abs(e2[p].item() - mid) < 1e-4, "voxel value not taken over")
                ctx.op()
            inits.add(g.tobytes())
            ctx.state("voxel", tuple(s["n"]), s["r"], seed)
            ctx.trace()
        if r[0] < r[1]:
            ctx.check(len(inits) == len(SEEDS), "initial voxel values do not depend on the seed")
        ctx.outcome("voxel")
    elif k == "bad":
        for mt in ("", "Siren", "mlp", "voxels"):
            try:
                build(mt, 1, 4, 1.0, 2, 4, 0)
            except Exception:
                pass
            else:
                ctx.fail("unknown network type %r accepted" % mt)
            ctx.op()
