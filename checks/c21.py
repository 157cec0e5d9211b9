"""C21: reproducible training."""
import copy
import itertools
import os
import pickle
import random
import subprocess
import sys
import tempfile
import numpy as np
from mc import nid

ID = "C21"
TECHNIQUE = "exhaustive enumeration of operation histories before a training (random draws, seeding, simulations, other trainings, loading, building); after every history the real training must equal, bit for bit, the one of an untouched process"
ASSUMPTIONS = ["single-threaded CPU computation; trainings of a few iterations on small structures"]
KINDS = {
    "siren": dict(model_type="siren"),
    "nerf": dict(model_type="nerf"),
    "voxel": dict(model_type="voxel", Nx=2, Ny=2),
    "cls": dict(model_type="siren", type="classification"),
    "noise": dict(model_type="siren", add_noise=True, noise_scale=0.05),
    "vnoise": dict(model_type="voxel", add_noise=True, noise_scale=0.05),
    "cnoise": dict(model_type="nerf", type="classification", add_noise=True, noise_scale=0.05),
    "log": dict(model_type="siren", freq_distribution="log", Nx=4, Ny=4, TRCWA_NG=5, TRCWA_L_grid=[[0.4, 0.0], [0.0, 0.5]]),
    "fdtd": dict(model_type="siren", solver="FDTD", FDTD_niter=60, N_freq=1, add_noise=True, noise_scale=0.02),
}
OPS = ["draw_t", "draw_n", "draw_p", "seed9", "seed_t", "train_siren", "train_cls", "train_noise", "spectrum", "fdtd", "build", "load", "grid", "default"]
BASE = {}
# seeds that coincide with small ones modulo common sizes
FAR = [100, 128, 256, 1000, 1001, 1024, 2000, 10000, 32768, 65536, 65537, 10**6, 2**24, 2**24 + 1, 10**9, 2**31 - 1]


def config(kind, seed=7, iterations=3):
    over = dict(KINDS[kind])
    nf = over.get("N_freq", 2)
    c = nid.cfg(
        name=kind, seed=seed, iterations=iterations, N_layers=2, N_freq=nf, n_neurons=4, hidden_layers=1, learning_rate=3e-3, TRCWA_NG=over.pop("TRCWA_NG", 1),
        PER_LAYER_THICKNESS=[0.3, 0.5], real_min_eps=1.0, real_max_eps=6.0, imag_max_eps=0.6, physical_wavelength_range=[0.7e-6, 1.9e-6],
        target_reflectance_spectrum=[0.6, 0.2][:nf], target_transmittance_spectrum=[0.3, 0.5][:nf],
    )
    for k, v in over.items():
        c[k] = v
    return c


def result(c):
    """everything that must be reproduced"""
    e, ids = nid.nidn.model_to_eps_grid(c.model, c)
    return dict(
        loss=[float(x) for x in c.results.loss_log],
        avg=[float(x) for x in c.results.weighted_average_log],
        l1=[float(x) for x in c.results.L1_errs],
        par=[(k, v.detach().numpy().tobytes()) for k, v in c.model.state_dict().items()],
        eps=e.detach().numpy().tobytes(),
        ids=None if ids is None else ids.detach().numpy().tobytes(),
    )


def train(kind, seed=7, **k):
    return result(nid.nidn.run_training(config(kind, seed, **k)))


def prepare():
    for k in KINDS:
        BASE[k] = train(k)


def do(op, tmp):
    import torch

    nidn = nid.nidn
    if op == "draw_t":
        torch.rand(13), torch.randn(3)
    elif op == "draw_n":
        np.random.rand(7)
    elif op == "draw_p":
        random.random()
    elif op == "seed9":
        nidn.fix_random_seeds(9)
    elif op == "seed_t":
        torch.manual_seed(123456)
    elif op.startswith("train_"):
        nidn.run_training(config(op[6:], seed=3, iterations=2))
    elif op == "spectrum":
        c = config("siren")
        nidn.get_frequency_points(c)
        nidn.compute_spectrum(torch.full((1, 1, 2, 2), 2.5 + 0.1j), c)
    elif op == "fdtd":
        c = config("fdtd")
        c.FDTD_niter = 40
        nidn.compute_spectrum(torch.full((1, 1, 2, 1), 2.5 + 0.1j), c)
    elif op == "build":
        c = config("siren")
        nidn.get_frequency_points(c)
        nidn.LayerBuilder(c).build_circle_layer("germanium", "zinc_oxide")
    elif op == "load":
        # loading a stored run
        p = os.path.join(tmp, "r.pk")
        c = config("siren")
        c.model = torch.nn.Linear(4, 2)
        with open(p, "wb") as h:
            pickle.dump(c, h)
        nidn.load_run(p)
    elif op == "grid":
        from nidn.training.model.init_network import init_network

        c = config("noise")
        nidn.get_frequency_points(c)
        c.out_features = 2
        nidn.model_to_eps_grid(init_network(c), c)
    elif op == "default":
        nidn.load_default_cfg()


def scenarios(tier):
    quick = tier == "quick"
    out = []
    for kind in KINDS:
        out.append(dict(k="hist", kind=kind, ops=[]))
        for op in OPS:
            out.append(dict(k="hist", kind=kind, ops=[op]))
    for kind in ("siren", "vnoise", "cnoise") if quick else [x for x in KINDS if x != "fdtd"]:
        for ops in itertools.product(OPS, repeat=2):
            if quick and kind != "siren" and ops[0] not in ("draw_t", "train_noise", "seed9"):
                continue
            out.append(dict(k="hist", kind=kind, ops=list(ops)))
    if not quick:
        for ops in itertools.product(["draw_t", "train_siren", "train_noise", "fdtd", "grid", "seed9"], repeat=3):
            out.append(dict(k="hist", kind="noise", ops=list(ops)))
    for kind in KINDS:
        out.append(dict(k="seeds", kind=kind, n=8 if quick else 30))
        out.append(dict(k="same_cfg", kind=kind))
        out.append(dict(k="supplied", kind=kind))
        out.append(dict(k="mid", kind=kind))
    for n in range(1, 6):
        out.append(dict(k="prefix", n=n))
    for hs in ("1", "77") if quick else ("1", "2", "3", "77", "random"):
        out.insert(0, dict(k="process", hashseed=hs))
    return out


def bounds(tier):
    return "9 kinds of training; all single operations out of %d before each; all pairs of operations before %s; %d seeds pairwise" % (
        len(OPS), "3 kinds (2 of them with 3 first operations)" if tier == "quick" else "8 kinds, all triples of 6 before one", 24 if tier == "quick" else 46)


def same(ctx, a, b, what):
    for k in a:
        ctx.check(a[k] == b[k], lambda: "%s: %s differs (%s)" % (what, {"loss": "loss log", "avg": "moving average", "l1": "L1 log", "par": "parameters", "eps": "permittivities", "ids": "material weights"}[k], (a[k], b[k]) if k in ("loss", "l1") else ""))
    ctx.trace()


def run(s, ctx):
    import torch

    k, kind = s["k"], s.get("kind")
    nidn = nid.nidn
    if k == "hist":
        with tempfile.TemporaryDirectory(prefix="c21-") as tmp:
            for op in s["ops"]:
                do(op, tmp)
                ctx.op()
        same(ctx, train(kind), BASE[kind], "training %s after %s" % (kind, s["ops"]))
        ctx.op()
        ctx.state("hist", kind, tuple(s["ops"]))
        ctx.outcome((kind, len(s["ops"])))
    elif k == "seeds":
        seen = {}
        for seed in list(range(s["n"])) + FAR:
            c = config(kind, seed, iterations=1)
            nidn.run_training(c)
            ctx.op()
            key = tuple(v.detach().numpy().tobytes() for v in c.model.state_dict().values())
            ctx.check(key not in seen, lambda: "seeds %d and %d give the same initial %s model" % (seen.get(key, -1), seed, kind))
            seen[key] = seed
            ctx.state("seed", kind, seed)
        ctx.outcome(("seeds", kind))
    elif k == "same_cfg":
        c = config(kind)
        a = result(nidn.run_training(c))
        same(ctx, a, BASE[kind], "first training %s" % kind)
        for round_ in range(2):
            del c["model"]
            b = result(nidn.run_training(c))
            same(ctx, b, BASE[kind], "training %s again with the same configuration object" % kind)
            ctx.op()
        c.model = None
        same(ctx, result(nidn.run_training(c)), BASE[kind], "training %s with model set to None" % kind)
        ctx.state("same_cfg", kind)
        ctx.outcome("same_cfg")
    elif k == "mid":
        # draws between the creation of the configuration and the training; two trainings prepared together
        a, b = config(kind), config(kind)
        torch.rand(3)
        ra = result(nidn.run_training(a))
        np.random.rand(4)
        rb = result(nidn.run_training(b))
        same(ctx, ra, BASE[kind], "training %s" % kind)
        same(ctx, rb, BASE[kind], "second training %s" % kind)
        ctx.op(2)
        ctx.state("mid", kind)
        ctx.outcome("mid")
    elif k == "supplied":
        from nidn.training.model.init_network import init_network

        c = config(kind)
        nidn.get_frequency_points(c)
        c.out_features = 10 if c.type == "classification" else 2
        torch.manual_seed(99)
        m = init_network(c)
        p0 = [v.detach().numpy().tobytes() for v in m.state_dict().values()]
        res = []
        for round_ in range(2):
            d = config(kind)
            mm = copy.deepcopy(m)
            d.model = mm
            snaps = []
            h = mm.register_forward_pre_hook(lambda mod, a: snaps.append([v.detach().numpy().tobytes() for v in mod.state_dict().values()]))
            nidn.run_training(d)
            h.remove()
            ctx.op()
            ctx.check(d.model is mm, "the supplied model was replaced")
            ctx.check(len(snaps) > 0 and snaps[0] == p0, "training did not start from the supplied model")
            res.append(result(d))
            torch.rand(5)
        same(ctx, res[0], res[1], "training %s of a supplied model" % kind)
        # continuing: the second training starts from the result of the first
        e = config(kind)
        nidn.run_training(e)
        p1 = [v.detach().numpy().tobytes() for v in e.model.state_dict().values()]
        snaps = []
        h = e.model.register_forward_pre_hook(lambda mod, a: snaps.append([v.detach().numpy().tobytes() for v in mod.state_dict().values()]))
        nidn.run_training(e)
        h.remove()
        ctx.check(snaps[0] == p1, "continued training did not start from the trained model")
        # ... or from whatever model the configuration holds by then
        for n in (1, 3, 7):
            for other in (copy.deepcopy(m), None):
                if other is None:
                    other = e.model
                    with torch.no_grad():
                        for q in other.parameters():
                            q.mul_(0.5)
                e.model, e.iterations = other, n
                p2 = [v.detach().numpy().tobytes() for v in other.state_dict().values()]
                snaps = []
                h = other.register_forward_pre_hook(lambda mod, a: snaps.append([v.detach().numpy().tobytes() for v in mod.state_dict().values()]))
                nidn.run_training(e)
                h.remove()
                ctx.op()
                ctx.check(snaps[0] == p2, "training of a model put into an earlier trained configuration did not start from it (%d iterations)" % n)
        ctx.state("supplied", kind)
        ctx.outcome("supplied")
    elif k == "process":
        # a process of its own, other hash randomisation, other working directory
        code = "import sys;sys.path.insert(0,%r);from mc import nid;nid.load();from checks import c21;import pickle;sys.stdout.buffer.write(b'RESULT'+pickle.dumps({k:c21.train(k) for k in ('siren','cnoise','vnoise')}))" % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        with tempfile.TemporaryDirectory(prefix="c21-") as tmp:
            p = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=s["hashseed"], PYTHONDONTWRITEBYTECODE="1"), cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        ctx.check(p.returncode == 0 and b"RESULT" in p.stdout, lambda: "training in another process failed: %s" % p.stderr[-300:])
        for kind, r in pickle.loads(p.stdout.split(b"RESULT", 1)[1]).items():
            same(ctx, r, BASE[kind], "training %s in another process" % kind)
            ctx.op()
        ctx.state("process", s["hashseed"])
        ctx.outcome("process")
    elif k == "prefix":
        # more iterations only extend the logs
        a = train("siren", iterations=s["n"])
        b = train("siren", iterations=s["n"] + 2)
        ctx.check(a["loss"] == b["loss"][: s["n"]], "a longer training has another beginning")
        ctx.op(2)
        ctx.state("prefix", s["n"])
        ctx.outcome("prefix")
