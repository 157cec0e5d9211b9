"""C20: saved runs."""
import builtins
import copy
import io
import itertools
import os
import pickle
import shutil
import tempfile
import threading
import numpy as np
from mc import nid

ID = "C20"
TECHNIQUE = "exhaustive exploration of save histories (runs x folders x clock steps x in-memory edits), of every truncation point, of an error or process death at every file operation of a save, and of all interleavings (bounded preemptions) of two and three concurrent saves at file-operation granularity, on the real save_run / load_run in a scratch folder"
ASSUMPTIONS = [
    "the clock shows the same second, the next second or the next day between saves",
    "concurrent savers are threads under a controlled scheduler, switching at file operations; file operations are atomic",
    "a process death keeps all completed writes",
]
RUNS = {}
TIMEOUT = 400


def prepare():
    import torch

    def make(name, **over):
        c = nid.cfg(
            name=name, N_freq=2, N_layers=2, n_neurons=3, hidden_layers=1, iterations=2, TRCWA_NG=1,
            target_reflectance_spectrum=[0.5, 0.2], target_transmittance_spectrum=[0.4, 0.1], physical_wavelength_range=[0.7e-6, 1.5e-6],
        )
        for k, v in over.items():
            c[k] = v
        return nid.nidn.run_training(c)

    RUNS["A"] = make("alpha", seed=1)
    RUNS["B"] = make("alpha", seed=2, model_type="nerf")
    RUNS["C"] = make("beta", seed=3, type="classification")
    RUNS["D"] = make("alpha", seed=4, model_type="voxel", Nx=2)
    RUNS["E"] = make("alpha_1", seed=5, hidden_layers=0)
    RUNS["F"] = nid.cfg(name="untrained")


def _materials(c, freq, skip):
    c.material_collection = nid.nidn.MaterialCollection(freq, to_skip=skip)


def _content():
    import torch

    T = torch.tensor
    return {
        "skipped materials": lambda c: _materials(c, [0.5, 0.9], ["gold", "germanium"]),
        "other frequencies": lambda c: _materials(c, [0.3], None),
        "lists": lambda c: c.update(notes=[1, 2.5, "x", None, [], [[1], (2, 3)]], empty=[]),
        "numbers": lambda c: c.update(big=2**80, small=1e-300, inf=float("inf"), none=None, neg0=-0.0),
        "arrays": lambda c: c.update(arr=np.arange(6.0).reshape(2, 3)[:, ::-1], ints=np.array([], dtype=np.int32), cplx=np.array([1 + 2j])),
        "tensors": lambda c: c.update(eps=T([[1 + 2j, 3 - 1j]]), half=T([1.5], dtype=torch.float16), flags=T([True, False]), view=torch.arange(6.0).reshape(2, 3).T),
        "nested": lambda c: c.update(extra=dict(a=dict(b=dict(c=[1, dict(d=2)]))), results_old=dict(loss_log=[0.1, 0.2])),
        "log": lambda c: c.results.update(loss_log=list(c.results.loss_log) * 40, extra_log=[0.5]),
        "no model": lambda c: c.pop("model"),
        "other model": lambda c: c.update(best=torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.ReLU())),
        "text": lambda c: c.update(text="zeile\n\u00e4\u4e2d\0", **{"key with space": 1}),
        "derived": lambda c: c.update(FDTD_grid_scaling=T(2.5e-6), FDTD_grid=[1.0, 2.0, 3.0], thicknesses=T([0.3, 0.4]), target_frequencies=[0.4, 0.9], PER_LAYER_THICKNESS=T([0.3, 0.4]), material_ids=T([[0, 1]]), best_loss=0.25, epsilon=T([1 + 0j])),
        "eval mode": lambda c: c.model.eval() if "model" in c else None,
    }


CONTENT = {
    "skipped materials", "other frequencies", "lists", "numbers", "arrays", "tensors", "nested", "log", "no model", "other model", "text", "eval mode", "derived",
}


class Clock:
    def __init__(self):
        import datetime as dt

        self.base = dt.datetime(2030, 5, 17, 23, 59, 58, 250000)
        self.delta = 0

    def install(self):
        import datetime as dt
        import importlib

        clock = self

        class Fake(dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return clock.base + dt.timedelta(seconds=clock.delta)

            utcnow = today = now

        mod = importlib.import_module("nidn.training.save_run")
        self.mod = mod
        self.old = getattr(mod, "datetime", None)
        if self.old is dt.datetime:
            mod.datetime = Fake
        elif self.old is dt:

            class FakeModule:
                datetime = Fake

                def __getattr__(self, k):
                    return getattr(dt, k)

            mod.datetime = FakeModule()

    def remove(self):
        if self.old is not None:
            self.mod.datetime = self.old


class Scratch:
    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="c20-")
        self.cwd = os.getcwd()
        os.mkdir(self.root + "/work")
        os.chdir(self.root + "/work")
        self.clock = Clock()
        self.clock.install()
        return self

    def __exit__(self, *a):
        self.clock.remove()
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[p] = h.read()
        return out


def norm(x):
    """comparable plain form of a run or any part of it"""
    import torch

    if isinstance(x, torch.Tensor):
        return ("tensor", str(x.dtype), tuple(x.shape), x.detach().resolve_conj().numpy().tobytes())
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, torch.nn.Module):
        return ("module", type(x).__name__, norm(dict(x.state_dict())))
    if isinstance(x, dict) or type(x).__name__ == "DotMap":
        return ("map", tuple(sorted((str(k), norm(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(norm(v) for v in x))
    if type(x).__name__ == "MaterialCollection":
        return ("materials", norm(x.epsilon_matrix), tuple(x.material_names), x.N_materials, norm(list(x.target_frequencies)))
    return (type(x).__name__, repr(x))


def outputs(run):
    """what the model of a run computes"""
    import torch

    if "model" not in run or run.model is None:
        return None
    e, ids = nid.nidn.model_to_eps_grid(run.model, run)
    return e.detach().numpy(), None if ids is None else ids.detach().numpy()


def same_run(ctx, path, want, out, what):
    try:
        got = nid.nidn.load_run(path)
    except Exception as e:
        ctx.fail("%s does not load: %s: %s" % (what, type(e).__name__, e))
    ctx.op()
    g = norm(got)
    if g != want:
        keys = {k: v for k, v in g[1]}
        wk = {k: v for k, v in want[1]}
        bad = [k for k in set(keys) | set(wk) if keys.get(k) != wk.get(k)]
        ctx.fail("%s differs from the saved run in %s" % (what, sorted(bad)))
    if out is not None:
        o = outputs(got)
        ctx.check(np.array_equal(o[0], out[0]), "%s: the loaded model computes something else" % what)
    ctx.trace()
    return got


_cache = {}


def truth(r):
    if r not in _cache:
        _cache[r] = (norm(RUNS[r]), outputs(RUNS[r]))
    return _cache[r]


def save(ctx, sc, known, r, run, folder, what, usable=True):
    """one save with all its obligations; known: path -> (content, normal form, outputs)"""
    before = sc.files()
    want = norm(run)
    nid.nidn.save_run(run, folder) if folder is not None else nid.nidn.save_run(run)
    ctx.op()
    after = sc.files()
    ctx.check(norm(run) == want, "%s: saving changed the run in memory" % what)
    for p, b in before.items():
        ctx.check(after.get(p) == b, lambda: "%s: earlier save %s was altered or removed" % (what, os.path.basename(p)))
    new = [p for p in after if p not in before]
    ctx.check(len(new) == 1, lambda: "%s: %d new files" % (what, len(new)))
    ctx.check(not folder or ("/" + folder.strip("/") + "/") in new[0], lambda: "%s: saved to %s" % (what, new[0]))
    known[new[0]] = (want, outputs(run) if usable else None)
    return new[0]


def scenarios(tier):
    quick = tier == "quick"
    out = []
    runs = "ABCDEF"
    folders = ["", "s1", "s1/s2", "s1/"]
    for r in runs:
        for f in folders + [None]:
            out.append(dict(k="hist", ops=[[r, f, 0]]))
    for a, b in itertools.product(itertools.product(runs, folders), repeat=2):
        for dt in (0, 1):
            out.append(dict(k="hist", ops=[[*a, 0], [*b, dt]]))
    alpha = list(itertools.product("AB" if quick else "ABC", ["", "s1"], (0, 1)))
    for seq in itertools.product(alpha, repeat=3):
        out.append(dict(k="hist", ops=[list(x) for x in seq]))
    if not quick:
        for seq in itertools.product(itertools.product("AE", ["", "s1"], (0, 86400)), repeat=4):
            out.append(dict(k="hist", ops=[list(x) for x in seq]))
    for n in (3, 5, 12, 25):
        out.append(dict(k="hist", ops=[["A", "", 0]] * n))
        out.append(dict(k="hist", ops=[["A", "", 0], ["E", "", 0]] * n))
    # the run changes in memory between saves
    for seq in itertools.product(range(4), repeat=3):
        out.append(dict(k="edit", seq=list(seq)))
    for nm in ("a.b", "a b", "x_run.pk", "x_1", "ä", "_", "1", "a-b", "UPPER", "a[1]", "a*"):
        out.append(dict(k="name", name=nm))
    for r in "AC":
        for parts in itertools.chain(itertools.combinations(sorted(CONTENT), 1), itertools.combinations(sorted(CONTENT), 2) if r == "C" else ()):
            out.append(dict(k="content", r=r, parts=list(parts)))
    for r in "ABCD":
        for part in range(8):
            out.append(dict(k="trunc", r=r, part=part, of=8, step=1 if not quick else (1 if r == "A" else 7)))
    for r in "ABC" if quick else runs:
        for mode in ("error", "death"):
            for earlier in (0, 2):
                out.append(dict(k="fault", r=r, mode=mode, earlier=earlier))
    for folder in ("", "s1"):
        for pair in ("AA", "AB", "AC", "AE"):
            out.append(dict(k="conc", rs=pair, folder=folder, pre=2 if quick else 4, fresh=True))
            out.append(dict(k="conc", rs=pair, folder=folder, pre=2 if quick else 4, fresh=False))
    out.append(dict(k="conc", rs="ABA", folder="", pre=1 if quick else 3, fresh=False))
    return out


def bounds(tier):
    return "all histories of 2 saves over 6 runs x 4 folders x 2 clock steps, of 3 saves over %s, repeated saves up to 50 in one second; 12 kinds of additional content and all pairs of them; truncation at every byte%s; error or death at every file operation; all schedules of 2 concurrent saves with up to %d preemptions (3 saves: %d)" % (
        "8 operations" if tier == "quick" else "12 (4 saves over 8)", " of run A, every 7th of three others" if tier == "quick" else "", 2 if tier == "quick" else 4, 1 if tier == "quick" else 3)


class Killed(BaseException):
    pass


class Hooks:
    """calls point(name) before every file operation below root"""

    def __init__(self, root, point):
        self.root, self.point = root, point

    def __enter__(self):
        self.saved = (builtins.open, io.open, {k: getattr(os, k) for k in ("stat", "mkdir", "replace", "rename", "unlink", "remove", "link", "open", "fsync", "makedirs")})
        h = self
        real_open = self.saved[0]
        me = threading.get_ident

        def inside(p):
            try:
                return os.path.abspath(os.fsdecode(p)).startswith(h.root)
            except Exception:
                return False

        class File:
            def __init__(self, f):
                self.f = f

            def write(self, b):
                h.point("write")
                return self.f.write(b)

            def close(self):
                if not self.f.closed:
                    h.point("close")
                return self.f.close()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __getattr__(self, k):
                return getattr(self.f, k)

            def __iter__(self):
                return iter(self.f)

        def fake_open(file, mode="r", *a, **k):
            if isinstance(file, (str, bytes, os.PathLike)) and inside(file) and any(c in mode for c in "wxa+"):
                h.point("open")
                if "b" in mode:
                    return File(real_open(file, mode, buffering=0))
                return File(real_open(file, mode, *a, **k))
            return real_open(file, mode, *a, **k)

        builtins.open = io.open = fake_open
        for name, fn in self.saved[2].items():
            if name in ("makedirs",):
                continue

            def wrap(*a, _fn=fn, _name=name, **k):
                if a and isinstance(a[0], (str, bytes, os.PathLike)) and inside(a[0]):
                    h.point(_name)
                return _fn(*a, **k)

            setattr(os, name, wrap)
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved[0], self.saved[1]
        for k, v in self.saved[2].items():
            setattr(os, k, v)


def concurrent(ctx, s):
    """threads switch only at file operations, under the explorer's control"""
    with Scratch() as sc:
        known = {}
        if not s["fresh"]:
            save(ctx, sc, known, "A", RUNS["A"], s["folder"], "earlier save")
        n = len(s["rs"])
        turn = {"who": None}
        cond = threading.Condition()
        state = ["ready"] * n
        errors = [None] * n
        local = threading.local()
        nwrites = [0] * n

        def point(name):
            i = getattr(local, "i", None)
            if i is None:
                return
            if name == "write":
                nwrites[i] += 1
                if nwrites[i] > 2:
                    return
            with cond:
                state[i] = "at"
                turn["who"] = None
                cond.notify_all()
                while turn["who"] != i:
                    cond.wait()

        def body(i):
            local.i = i
            with cond:
                while turn["who"] != i:
                    cond.wait()
            try:
                nid.nidn.save_run(RUNS[s["rs"][i]], s["folder"])
            except BaseException as e:
                errors[i] = e
            with cond:
                state[i] = "done"
                turn["who"] = None
                cond.notify_all()

        before = sc.files()
        with Hooks(sc.root, point):
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
            for t in ts:
                t.start()
            last, left, sched = None, s["pre"], []
            while True:
                alive = [i for i in range(n) if state[i] != "done"]
                if not alive:
                    break
                if last in alive:
                    opts = [last] + ([i for i in alive if i != last] if left > 0 else [])
                else:
                    opts = alive
                w = ctx.choose("run", opts) if len(opts) > 1 else opts[0]
                if last in alive and w != last:
                    left -= 1
                last = w
                sched.append(w)
                ctx.op()
                with cond:
                    turn["who"] = w
                    cond.notify_all()
                    while turn["who"] is not None:
                        if not cond.wait(timeout=60):
                            ctx.fail("deadlock between concurrent saves")
            for t in ts:
                t.join()
        what = "schedule %s" % sched
        for e in errors:
            ctx.check(e is None, lambda: "%s: concurrent save failed with %s: %s" % (what, type(e).__name__, e))
        after = sc.files()
        for p, b in before.items():
            ctx.check(after.get(p) == b, "%s: earlier save altered" % what)
        new = [p for p in after if p not in before]
        ctx.check(len(new) == n, lambda: "%s: %d files for %d saves" % (what, len(new), n))
        left_ = [truth(r)[0] for r in s["rs"]]
        for p in new:
            try:
                g = norm(nid.nidn.load_run(p))
            except Exception as e:
                ctx.fail("%s: %s does not load: %s" % (what, os.path.basename(p), e))
            ctx.check(g in left_, "%s: a saved run is lost or mixed up" % what)
            left_.remove(g)
            ctx.trace()
        ctx.state("conc", s["rs"], s["folder"], s["fresh"], tuple(sched))
        ctx.outcome(("conc", len(sched)))


def fault(ctx, s):
    run = RUNS[s["r"]]
    # number of file operations of a save
    with Scratch() as sc:
        cnt = [0]

        def count(name):
            cnt[0] += 1

        for i in range(s["earlier"]):
            nid.nidn.save_run(RUNS["A"])
        with Hooks(sc.root, count):
            nid.nidn.save_run(run)
        total = cnt[0]
    for at in range(total):
        with Scratch() as sc:
            known = {}
            for i in range(s["earlier"]):
                save(ctx, sc, known, "A", RUNS["A"], "", "earlier save")
            before = sc.files()
            want, out = truth(s["r"])
            cnt = [0]
            what = "%s at file operation %d of %d" % (s["mode"], at + 1, total)
            if s["mode"] == "error":

                def point(name):
                    cnt[0] += 1
                    if cnt[0] == at + 1:
                        raise OSError(28, "No space left on device")

                raised = None
                with Hooks(sc.root, point):
                    try:
                        nid.nidn.save_run(run)
                    except OSError as e:
                        raised = e
                ctx.check(norm(run) == want, "%s changed the run in memory" % what)
            else:

                def point(name):
                    cnt[0] += 1
                    if cnt[0] == at + 1:
                        os._exit(77)

                pid = os.fork()
                if pid == 0:
                    try:
                        with Hooks(sc.root, point):
                            nid.nidn.save_run(run)
                    except BaseException:
                        os._exit(3)
                    os._exit(0)
                _, st = os.waitpid(pid, 0)
                code = os.waitstatus_to_exitcode(st)
                raised = code != 0
            ctx.op()
            after = sc.files()
            for p, b in before.items():
                ctx.check(after.get(p) == b, "%s: earlier save altered or removed" % what)
            for p, (w, o) in known.items():
                same_run(ctx, p, w, o, "%s: earlier save" % what)
            new = [p for p in after if p not in before]
            complete = 0
            for p in new:
                try:
                    g = nid.nidn.load_run(p)
                except Exception:
                    continue
                ctx.check(norm(g) == want, "%s: an incomplete file loads as a run" % what)
                complete += 1
            ctx.check(raised or complete == 1, "%s: save reported success but the run is not on disk" % what)
            # life goes on: the next save works
            k2 = {}
            p = save(ctx, sc, k2, s["r"], run, "", "save after " + what)
            same_run(ctx, p, want, out, "save after " + what)
            ctx.state("fault", s["r"], s["mode"], s["earlier"], at)
            ctx.outcome((s["mode"], bool(new), complete))


def run(s, ctx):
    k = s["k"]
    if k == "conc":
        return concurrent(ctx, s)
    if k == "fault":
        return fault(ctx, s)
    with Scratch() as sc:
        known = {}
        if k == "hist":
            for i, (r, f, dt) in enumerate(s["ops"]):
                sc.clock.delta += dt
                p = save(ctx, sc, known, r, RUNS[r], f, "save %d of %s" % (i + 1, s["ops"][:6]))
            for p, (w, o) in known.items():
                same_run(ctx, p, w, o, "saved run")
            ctx.state("hist", str(s["ops"]))
            ctx.outcome(("hist", len(known)))
        elif k == "edit":
            run_ = copy.deepcopy(RUNS["A"])
            for i, e in enumerate(s["seq"]):
                if e == 1:
                    import torch

                    with torch.no_grad():
                        for p in run_.model.parameters():
                            p.mul_(0.5)
                elif e == 2:
                    run_.results.loss_log.append(9.5 + i)
                elif e == 3:
                    run_.learning_rate = run_.learning_rate * 2
                save(ctx, sc, known, "A", run_, "", "save %d after edits %s" % (i + 1, s["seq"]))
            for p, (w, o) in list(known.items()):
                got = same_run(ctx, p, w, o, "save before edits %s" % s["seq"])
                # using a loaded run does not touch the file
                import torch

                with torch.no_grad():
                    for q in got.model.parameters():
                        q.mul_(0.0)
                got.results.loss_log.append(1.0)
                same_run(ctx, p, w, o, "second load")
            ctx.state("edit", tuple(s["seq"]))
            ctx.outcome("edit")
        elif k == "content":
            run_ = copy.deepcopy(RUNS[s["r"]])
            for part in s["parts"]:
                _content()[part](run_)
            for again in range(2):
                p = save(ctx, sc, known, s["r"], run_, "", "save with %s" % s["parts"], usable=not {"skipped materials", "other frequencies"} & set(s["parts"]))
                got = same_run(ctx, p, known[p][0], known[p][1], "run with %s" % s["parts"])
                if "material_collection" in run_:
                    for nm in run_.material_collection.material_names:
                        ctx.check(norm(got.material_collection[nm]) == norm(run_.material_collection[nm]), lambda: "material %s of the loaded run differs" % nm)
                run_ = got  # a loaded run can be saved again
            ctx.state("content", s["r"], tuple(s["parts"]))
            ctx.outcome("content")
        elif k == "name":
            run_ = copy.deepcopy(RUNS["A"])
            run_.name = s["name"]
            for i in range(3):
                save(ctx, sc, known, "A", run_, "", "save as %r" % s["name"])
            for p, (w, o) in known.items():
                same_run(ctx, p, w, o, "run %r" % s["name"])
            ctx.state("name", s["name"])
            ctx.outcome("name")
        elif k == "trunc":
            p = save(ctx, sc, known, s["r"], RUNS[s["r"]], "", "save")
            data = sc.files()[p]
            t = os.path.join(sc.root, "t.pk")
            want, out = known[p]
            for n in range(s["part"], len(data), s["of"] * s["step"]):
                with open(t, "wb") as h:
                    h.write(data[:n])
                try:
                    nid.nidn.load_run(t)
                except Exception:
                    pass
                else:
                    ctx.fail("a file cut after %d of %d bytes loads as a run" % (n, len(data)))
                ctx.op()
                ctx.state("trunc", s["r"], n)
            same_run(ctx, p, want, out, "saved run")
            ctx.outcome(("trunc", s["r"]))
