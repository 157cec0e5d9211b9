import importlib
import json
import os
import sys
import time

from . import engine

ROOT = engine.ROOT


def load_known(pid):
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                sig, _, desc = rest.partition(" :: ")
                known[sig.replace("signature=", "").strip()] = desc
    return known


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    evdir = os.path.join(ROOT, "evidence")
    redir = os.path.join(evdir, "replays")
    os.makedirs(redir, exist_ok=True)
    check = importlib.import_module("checks." + pid.lower())
    known = load_known(pid)
    if "--replay" in args:
        rep = json.load(open(args[args.index("--replay") + 1]))
        check_prepare(check)
        sh = engine.Shared()

        class One:
            run = staticmethod(check.run)

        ctx = engine.Ctx(sh, rep["choices"])
        try:
            check.run(rep["scenario"], ctx)
        except Exception as e:
            print("REPRODUCED: %s: %s" % (type(e).__name__, e))
            sys.exit(1)
        print("not reproduced")
        sys.exit(0)
    setup_error = None
    total, done, n, stop = engine.Shared(), 0, 0, False
    try:
        check_prepare(check)
        scen = list(check.scenarios(tier))
    except Exception as e:
        import traceback

        setup_error = traceback.format_exc()
        total.violations.append(
            dict(scenario={}, choices=[], labels=[], msg="library cannot be loaded or set up: %s: %s" % (type(e).__name__, e), sig=None)
        )
    if setup_error is None:
        for i, s in enumerate(scen):
            json.dumps(s)
        total, done, n, stop = engine.explore(check, scen, known=set(known))
    new = [v for v in total.violations if v["sig"] not in known]
    old = {v["sig"] for v in total.violations if v["sig"] in known}
    cov = dict(
        states=len(total.states),
        transitions=total.ops,
        traces_validated_against_impl=total.traces,
        executions=total.execs,
        scenarios=n,
        scenarios_completed=done,
        max_choice_points=total.max_choices,
        distinct_outcomes=len(total.outcomes),
        bounds=check.bounds(tier),
        exhaustive=bool(setup_error is None and done == n and not stop),
        samples=total.samples[:5],
    )
    if total.skipped:
        cov["skipped"] = dict(total.skipped)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=cov,
        assumptions=list(getattr(check, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if setup_error:
        sys.stderr.write(setup_error)
    for e in total.errors[:3]:
        sys.stderr.write("harness error: %s\n" % e)
    print(
        "%s %s: scenarios=%d/%d executions=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
        % (pid, tier, done, n, total.execs, len(total.states), total.ops, total.traces, len(total.outcomes), time.time() - t0)
    )
    for s in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[s]))
    if new:
        v = new[0]
        path = os.path.join(redir, "%s-%s.json" % (pid, tier))
        with open(path, "w") as f:
            json.dump(dict(property=pid, **v), f, indent=1, default=str)
        print("  " + v["msg"])
        print("  scenario: %s choices: %s" % (json.dumps(v["scenario"], default=str)[:600], v["labels"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        os._exit(1)
    if total.errors:
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


def check_prepare(check):
    from . import nid

    nid.load()
    if hasattr(check, "prepare"):
        check.prepare()


if __name__ == "__main__":
    main()
