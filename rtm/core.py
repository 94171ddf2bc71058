"""
The engine of all checks: it makes the cases of a property from VERIF_SEED, runs them against the real code in
/repo in fresh worker processes, collects what the monitors observed, and turns that into a three-valued verdict:

  exit 0   held on everything that was observed
  exit 1   violated (a line VIOLATION property=<id> replay=<path>)
  exit 2   inconclusive (a monitor was not reached often enough, or the harness itself failed)
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# the numbers of quick cases of the scenarios are multiplied with this (the quotas in REQUIRE are for a factor of one)
QUICK = 2.5
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MEMORY_LIMIT = 8 << 30  # address space of a worker; they normally need about 2 GB
CPU_LIMIT = 120  # CPU seconds for a single case; a case normally needs well below one


class Violated(Exception):
    def __init__(self, mech, message, data):
        Exception.__init__(self, message)
        self.mech, self.message, self.data = mech, message, data


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """ the generated case turned out not to be a case of the property """


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.void) else repr(x)
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return "ndarray%s %s %s ..." % (x.shape, x.dtype, np.array2string(x.ravel()[:12]))
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Ctx:
    """ what a case sees: its random generator, the code under test, counters and the reporting functions """

    def __init__(self, prop, scenario, index, seed, tier, scratch):
        import numpy as np
        h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, scenario, index)).encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:16], "big"))
        np.random.seed(int.from_bytes(h[16:20], "big"))
        self.prop, self.scenario, self.index, self.seed, self.tier = prop, scenario, index, seed, tier
        self.scratch = scratch
        self.count = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.log = []

    # --- reporting -------------------------------------------------------------------------------
    def note(self, **kw):
        """ remember a step of the history of this case, it becomes part of the replay file """
        self.log.append(kw)

    def seen(self, *key):
        """ a distinct, non-trivial observation (state or behaviour) """
        self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def fail(self, mech, message, **data):
        raise Violated(mech, message, data)

    def check(self, cond, mech, message, **data):
        self.count["judged:" + mech] += 1
        if not cond:
            self.fail(mech, message, **data)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def call(self, what, fn, *args, **kwargs):
        """ run the code under test on a valid input; any exception is a violation """
        try:
            return fn(*args, **kwargs)
        except (Violated, Skip, CaseTimeout):
            raise
        except Exception as err:
            self.fail("exception:" + what, "%s raised %s: %s on a valid input" % (what, type(err).__name__, str(err)[:300]),
                      args=args, kwargs=kwargs, traceback=traceback.format_exc()[-1500:])

    # --- small helpers for the random choices ----------------------------------------------------
    def chance(self, p):
        return self.rng.random() < p

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def tmp(self, name="x"):
        return os.path.join(self.scratch, "%s_%d_%s" % (self.scenario, self.index, name))


def load_prop(pid):
    return importlib.import_module("rtm.props." + pid.lower())


def import_dependencies():
    import numpy, scipy.stats, scipy.optimize, scipy.interpolate, pandas, cv2, matplotlib, tqdm, PIL.Image, requests
    matplotlib.use("agg")
    import matplotlib.pyplot


def import_target():
    """ import cameratransform from the current working tree of the repository, never from a stale byte code file """
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import cv2
    cv2.setNumThreads(0)
    import matplotlib
    matplotlib.use("agg")
    import cameratransform
    where = os.path.realpath(os.path.dirname(cameratransform.__file__))
    if not where.startswith(os.path.realpath(REPO)):
        raise RuntimeError("cameratransform was imported from %s and not from %s" % (where, REPO))
    return cameratransform


def run_case(mod, pid, scenario, index, seed, tier, scratch):
    import contextlib
    import io
    ctx = Ctx(pid, scenario, index, seed, tier, scratch)
    fn = mod.SCENARIOS[scenario][0]
    violation = None
    signal.signal(signal.SIGPROF, _on_timeout)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            fn(ctx)
        ctx.count["cases:" + scenario] += 1
    except Skip:
        ctx.count["skipped:" + scenario] += 1
    except Violated as v:
        violation = dict(mech=v.mech, message=v.message, data=jsonable(v.data), log=jsonable(ctx.log[-40:]))
    except (MemoryError, OSError, ImportError) as err:
        # these may come from the sandbox and not from the code; only a failure inside of the code is its fault
        if isinstance(err, MemoryError) or not inside_target(err):
            raise
        violation = dict(mech="exception", message="%s: %s" % (type(err).__name__, str(err)[:300]), data={"traceback": traceback.format_exc()[-2500:]}, log=jsonable(ctx.log[-40:]))
    except Exception as err:
        # a valid operation raised an error, or gave an answer of a kind that can not be used
        mech = "exception" if inside_target(err) else "unusable-answer"
        violation = dict(mech=mech, message="%s: %s" % (type(err).__name__, str(err)[:300]), data={"traceback": traceback.format_exc()[-2500:]}, log=jsonable(ctx.log[-40:]))
    except CaseTimeout:
        violation = dict(mech="no-answer", message="the case did not finish within %d s of CPU time" % CPU_LIMIT,
                         data={"traceback": traceback.format_exc()[-1500:]}, log=jsonable(ctx.log[-40:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx, violation


def inside_target(err):
    """ whether an exception went through the code under test """
    where = os.path.join(os.path.realpath(REPO), "cameratransform")
    return any(os.path.realpath(f.filename).startswith(where) for f in traceback.extract_tb(err.__traceback__))


def _on_timeout(*args):
    raise CaseTimeout()


def limit_memory():
    """ a call which wants to have all of the memory gets an error, instead of the whole process being ended """
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    limit = MEMORY_LIMIT if hard == resource.RLIM_INFINITY else min(hard, MEMORY_LIMIT)
    resource.setrlimit(resource.RLIMIT_AS, (limit, hard))


def work(job):
    """ run one chunk of cases in a fresh process """
    pid, seed, tier, cases = job
    limit_memory()
    mod = load_prop(pid)
    from rtm import bus
    scratch = tempfile.mkdtemp(prefix="rtm_")
    old_cwd = os.getcwd()
    os.chdir(scratch)
    out = dict(count=collections.Counter(), distinct=set(), samples=[], violations=[], errors=[], executed=0)
    try:
        bus.reset()
        for pos, (scenario, index) in enumerate(cases):
            try:
                ctx, violation = run_case(mod, pid, scenario, index, seed, tier, scratch)
            except Exception:
                out["errors"].append("%s/%d: %s" % (scenario, index, traceback.format_exc()[-2000:]))
                continue
            out["executed"] += 1
            out["count"].update(ctx.count)
            out["distinct"] |= ctx.distinct
            if len(out["samples"]) < 3:
                out["samples"] += [dict(scenario=scenario, case=index, **s) if isinstance(s, dict) else s for s in ctx.samples[:1]]
            if violation:
                violation.update(scenario=scenario, index=index, chunk=cases[:pos + 1])
                out["violations"].append(violation)
        out["events"] = bus.snapshot()
    finally:
        os.chdir(old_cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def known_findings(pid):
    found = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                mech, what = rest.split(" ", 1)
                assert mech.startswith("mech=")
                found[mech[5:]] = what
    return found


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", help="only this scenario")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of cases")
    ap.add_argument("--budget", type=float, help="stop starting new cases after this many seconds")
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    pid = args.property
    t0 = time.time()
    import_dependencies()
    # compile the working tree afresh, a byte code file from before a change of the same size and time is never used
    sys.pycache_prefix = tempfile.mkdtemp(prefix="rtm_pyc_")
    try:
        import_target()
        from rtm import bus
        bus.install()
        mod = load_prop(pid)
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s: the code or the harness could not be loaded" % pid)
        return 2
    finally:
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
        sys.pycache_prefix = None

    if args.replay:
        return replay(mod, pid, args.replay)

    tier = "thorough" if args.tier == "thorough" else "quick"
    budget = args.budget or (420 if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 2400))
    cases = []
    for name, (fn, quick, thorough) in mod.SCENARIOS.items():
        if args.only and name != args.only:
            continue
        n = int(quick * getattr(mod, "QUICK", QUICK)) if tier == "quick" else thorough
        cases += [(name, i) for i in range(max(1, int(n * args.scale)) if n else 0)]
    # a fixed mix of the scenarios
    cases.sort(key=lambda c: hashlib.md5(("%s/%d/%d" % (c[0], c[1], args.seed)).encode()).digest())
    size = max(1, min(getattr(mod, "CHUNK", 40), -(-len(cases) // (args.jobs * 3))))
    jobs = [(pid, args.seed, tier, cases[i:i + size]) for i in range(0, len(cases), size)]

    total = dict(count=collections.Counter(), distinct=set(), samples=[], violations=[], errors=[], executed=0,
                 events=collections.Counter())
    inconclusive = []
    known = known_findings(pid)
    stop_at = t0 + budget
    with multiprocessing.get_context("fork").Pool(args.jobs, maxtasksperchild=1) as pool:
        pending = collections.deque()
        todo = iter(jobs)
        done = False
        while True:
            while not done and len(pending) < args.jobs * 2:
                if time.time() > stop_at or len([v for v in total["violations"] if v["mech"] not in known]) >= 3:
                    done = True
                    break
                job = next(todo, None)
                if job is None:
                    done = True
                    break
                pending.append(pool.apply_async(work, (job,)))
            if not pending:
                break
            try:
                out = pending.popleft().get(timeout=600)
            except multiprocessing.TimeoutError:
                inconclusive.append("a worker did not answer within 600 s")
                pool.terminate()
                break
            except Exception:
                inconclusive.append("a worker failed: " + traceback.format_exc()[-800:])
                continue
            total["executed"] += out["executed"]
            total["count"].update(out["count"])
            total["distinct"] |= out["distinct"]
            if len(total["samples"]) < 8:
                total["samples"] += out["samples"][:2]
            total["violations"] += out["violations"]
            total["errors"] += out["errors"]
            total["events"].update(out.get("events", {}))

    if total["errors"]:
        inconclusive.append("%d cases failed inside the harness, e.g. %s" % (len(total["errors"]), total["errors"][0]))
    if not args.only and args.scale >= 1:
        for key, minimum in getattr(mod, "REQUIRE", {}).items():
            have = sum(v for k, v in total["count"].items() if k == key or k.startswith(key + "."))
            if have < minimum:
                inconclusive.append("only %d observations of %r, need %d" % (have, key, minimum))

    new = [v for v in total["violations"] if v["mech"] not in known]
    old = [v for v in total["violations"] if v["mech"] in known]
    wall = time.time() - t0
    write_evidence(mod, pid, tier, args.seed, total, new, old, inconclusive, wall)
    for mech in sorted({v["mech"] for v in old}):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[mech]))
    print("property=%s tier=%s seed=%d cases=%d distinct=%d judgements=%d events=%d wall=%.1fs" % (
        pid, tier, args.seed, total["executed"], len(total["distinct"]),
        sum(v for k, v in total["count"].items() if k.startswith("judged:")), sum(total["events"].values()), wall))
    if new:
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        for n, v in enumerate(new[:3]):
            path = os.path.join(EVIDENCE, "replay", "%s-%d.json" % (pid, n))
            with open(path, "w") as fp:
                json.dump(dict(property=pid, seed=args.seed, tier=tier, **v), fp, indent=1, default=repr)
            print("  %s: %s [%s/%d]" % (v["mech"], v["message"][:600], v["scenario"], v["index"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inconclusive:
        for reason in inconclusive[:5]:
            print("INCONCLUSIVE property=%s: %s" % (pid, reason))
        return 2
    return 0


def write_evidence(mod, pid, tier, seed, total, new, old, inconclusive, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    judged = {k[7:]: v for k, v in sorted(total["count"].items()) if k.startswith("judged:")}
    other = {k: v for k, v in sorted(total["count"].items()) if not k.startswith("judged:")}
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=sum(judged.values()), cases=total["executed"], distinct_nontrivial=len(total["distinct"]), rule=mod.RULE,
            samples=total["samples"][:8] or ["none"], judgements_by_monitor=judged, observations=other,
            events_by_operation=dict(sorted(total["events"].items())),
            known_findings_observed=sorted({v["mech"] for v in old}), inconclusive=inconclusive[:5]),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as fp:
        json.dump(evidence, fp, indent=1, default=repr)


def replay(mod, pid, path):
    data = json.load(open(path))
    for cases in ([(data["scenario"], data["index"])], [tuple(c) for c in data["chunk"]]):
        with multiprocessing.get_context("fork").Pool(1, maxtasksperchild=1) as pool:
            out = pool.apply(work, ((pid, data["seed"], data["tier"], cases),))
        for v in out["violations"]:
            if (v["scenario"], v["index"]) == (data["scenario"], data["index"]):
                print(json.dumps({k: v[k] for k in ("mech", "message", "data", "log")}, indent=1, default=repr))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
    print("the violation does not occur any more")
    return 0
