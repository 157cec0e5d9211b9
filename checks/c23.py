"""C23: batch script."""
import itertools
import os
import subprocess
import sys
import tempfile
import numpy as np
from mc import nid

ID = "C23"
TECHNIQUE = "exhaustive enumeration of folders of configuration files (all subsets of a set of five kinds of runs, with other files among them); the real script runs in a process of its own and the result folder is compared with trainings of the same configurations in this process"
ASSUMPTIONS = ["configurations with different names; results are looked for in ../results relative to the working directory", "bitwise reproducible training (C21)"]
TIMEOUT = 400
RUNS = {
    "a": dict(name="a", model_type="siren", N_freq=2, seed=1),
    "b": dict(name="b second", type="classification", N_freq=4, seed=2, N_layers=2, PER_LAYER_THICKNESS=[0.3, 0.6]),
    "c": dict(name="c", model_type="voxel", N_freq=1, Nx=2, Ny=2, seed=3),
    "d": dict(name="d.v1", model_type="nerf", N_freq=5, freq_distribution="log", seed=4, iterations=1),
    "e": dict(name="e", solver="FDTD", N_freq=1, FDTD_niter=50, iterations=1),
}
SINGLE = "abcde"
for _i in range(10):
    RUNS[str(_i)] = dict(name="n%d" % _i, N_freq=1 + _i % 3, seed=10 + _i, iterations=1)
# folders and names that differ only a little
RUNS["v"] = dict(name="x", N_freq=1, seed=31, iterations=1)
RUNS["w"] = dict(name="X", N_freq=2, seed=32, iterations=1)
RUNS["y"] = dict(name="x ", N_freq=1, seed=33, iterations=1)
RUNS["z"] = dict(name="x_1", N_freq=3, seed=34, iterations=1)
# file names of all kinds
FILES = {"v": "1.toml", "w": "_w.toml", "y": "Cfg y.v2.toml", "z": "\u00fcber-z.toml"}
BASE = {}


def values(key):
    import toml

    c = nid.cfg(iterations=2, TRCWA_NG=1, n_neurons=4, hidden_layers=1, physical_wavelength_range=[0.7e-6, 1.9e-6], real_min_eps=1.0, real_max_eps=6.0, imag_max_eps=0.6, PER_LAYER_THICKNESS=[0.4])
    for k, v in RUNS[key].items():
        c[k] = v
    nf = c.N_freq
    c.target_reflectance_spectrum = [0.6 - 0.1 * i for i in range(nf)]
    c.target_transmittance_spectrum = [0.3 + 0.05 * i for i in range(nf)]
    return c.toDict()


def prepare():
    from dotmap import DotMap

    for k in RUNS:
        c = DotMap(values(k), _dynamic=False)
        nid.nidn.run_training(c)
        BASE[k] = ([float(x) for x in c.results.loss_log], [v.detach().numpy().tobytes() for v in c.model.state_dict().values()])


def scenarios(tier):
    out = []
    quick = tier == "quick"
    for r in range(0, len(SINGLE) + 1):
        for sub in itertools.combinations(SINGLE, r):
            if quick and r == 3:
                continue
            out.append(dict(k="batch", sub="".join(sub), other=r % 2 == 1, slash=len(out) % 2 == 0))
    out.append(dict(k="batch", sub="0123456789", other=True, slash=False))
    out.append(dict(k="batch", sub="vwyz", other=True, slash=True))
    out.append(dict(k="usage"))
    out.append(dict(k="again", sub="ac"))
    return out


def bounds(tier):
    return "%s subsets of %d configurations, half of the folders with files that are not configurations; one folder of ten configurations; one with similar run names and unusual file names; wrong usage; two batches in a row" % ("all but the 3-element" if tier == "quick" else "all", len(SINGLE))


def script(args, cwd):
    env = dict(os.environ, PYTHONPATH=nid.REPO, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([sys.executable, os.path.join(nid.REPO, "nidn", "scripts", "run_cfgs.py")] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def look(ctx, tmp):
    """saved runs below ../results: name -> list of (folder, run)"""
    out = {}
    res = os.path.join(tmp, "results")
    for d, _, files in os.walk(res):
        for f in files:
            if not f.endswith(".png"):
                r = nid.nidn.load_run(os.path.join(d, f))
                out.setdefault(r["name"], []).append((d, r))
    return out


def run(s, ctx):
    import toml

    with tempfile.TemporaryDirectory(prefix="c23-") as tmp:
        cwd = os.path.join(tmp, "work")
        os.mkdir(cwd)
        if s["k"] == "usage":
            p = script([], cwd)
            ctx.op()
            ctx.check(p.returncode not in (0, None) and not os.path.exists(tmp + "/results"), lambda: "exit code %s without arguments" % p.returncode)
            ctx.state("usage")
            ctx.outcome("usage")
            return
        folder = os.path.join(tmp, "my cfgs")
        os.mkdir(folder)
        texts = {}
        for k in s["sub"]:
            f = os.path.join(folder, FILES.get(k, "cfg_%s.toml" % k))
            with open(f, "w") as h:
                toml.dump(values(k), h)
            texts[f] = open(f).read()
        if s.get("other"):
            with open(os.path.join(folder, "notes.txt"), "w") as h:
                h.write("name = 'not a configuration'")
            for f in ("cfg_a.toml.bak", "old.toml~", "tomlnotes.txt", "cfg_toml", "toml"):
                with open(os.path.join(folder, f), "w") as h:
                    toml.dump(dict(values("a"), name="left over " + f), h)
            os.mkdir(os.path.join(folder, "deeper"))
            with open(os.path.join(folder, "deeper", "x.toml"), "w") as h:
                toml.dump(dict(values("a"), name="nested"), h)
        for round_ in range(2 if s["k"] == "again" else 1):
            p = script([folder + ("/" if s.get("slash") else "")], cwd)
            ctx.op(len(s["sub"]))
            ctx.check(p.returncode == 0, lambda: "script failed: %s" % p.stderr[-500:].decode(errors="replace"))
        found = look(ctx, tmp)
        names = {RUNS[k]["name"]: k for k in s["sub"]}
        ctx.check(set(found) == set(names), lambda: "saved runs %s for configurations %s" % (sorted(found), sorted(names)))
        folders = [d for v in found.values() for d, _ in v]
        ctx.check(len(set(folders)) == len(folders), lambda: "several runs in one folder: %s" % sorted(folders))
        for name, k in names.items():
            ctx.check(len(found[name]) == (2 if s["k"] == "again" else 1), lambda: "%d saved runs of %s" % (len(found[name]), name))
            for d, r in found[name]:
                for q, v in values(k).items():
                    ctx.check(q in r and r[q] == v, lambda: "run %s: saved entry %s = %r, configured %r" % (name, q, r.get(q), v))
                ctx.check([float(x) for x in r.results.loss_log] == BASE[k][0], lambda: "run %s: loss log %s, expected %s" % (name, r.results.loss_log, BASE[k][0]))
                ctx.check([v.detach().numpy().tobytes() for v in r.model.state_dict().values()] == BASE[k][1], "run %s: model differs from the one of a direct training" % name)
                png = [f for f in os.listdir(d) if f.endswith(".png")]
                ctx.check(len(png) == 6, lambda: "run %s: plots %s beside the saved run" % (name, png))
                ctx.trace()
        ctx.check(sorted(os.listdir(tmp)) == sorted(["my cfgs", "work"] + (["results"] if s["sub"] else [])) or not s["sub"], lambda: "files %s" % os.listdir(tmp))
        ctx.check(os.listdir(cwd) == [], lambda: "files in the working directory: %s" % os.listdir(cwd))
        for f, t in texts.items():
            ctx.check(open(f).read() == t, "configuration file %s changed" % f)
        ctx.state(s["k"], s["sub"])
        ctx.outcome((s["k"], s["sub"]))
