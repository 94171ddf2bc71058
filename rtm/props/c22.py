"""C22 several threads at the same time"""
import copy
import hashlib
import os

import numpy as np

from rtm import core, gen, queries, ref
from rtm.core import Skip
from rtm.props.c06 import freeze, parameters, same
from rtm.sched import Scheduler

RULE = ("2 or 3 threads which all ask one camera or group, or which each create, change, ask, save, load and fit cameras of their own; a scheduler lets one thread run at a time and makes it hand over at random lines of the package "
        "(so that every interleaving of lines can occur, and can be replayed); the answers are compared with those of the same work done one after the other; "
        "distinct = (function, line in the function and kind of work where one thread was stopped and another one ran)")
ASSUMPTIONS = ["threads which change the same camera, pyplot figures and the global random generator of numpy are not judged",
               "interleavings of whole lines of the package"]
REQUIRE = {"judged:shared": 2500, "judged:own": 1500, "switches": 20000, "judged:parameters": 400}


def ask(w, q):
    return copy.deepcopy(q["fn"](*q["args"], **q["kw"]))


def picture(ctx, w):
    s, cam = w.s, w.cam
    im = ctx.rng.integers(0, 255, (s["h"], s["w"]) + ctx.pick([(), (3,), (4,)])).astype(np.uint8)
    if ctx.chance(0.5):
        kw = ctx.pick([{}, dict(extent=[0.0, s["w"] * 0.7, 0.0, s["h"] * 0.6]), dict(scaling=2), dict(extent=[2, s["w"] + 3, -2, s["h"] - 1], scaling=1.5)])
        return dict(name="undistortImage", fn=cam.undistortImage, args=[im], kw=kw)
    x, y = s["x"] + ctx.pick([0.0, 3.0]), s["y"]
    return dict(name="getTopViewOfImage", fn=cam.getTopViewOfImage, args=[im], kw=dict(extent=[x - 10.0, x + 10.0, y + 5.0, y + 20.0], scaling=ctx.pick([0.5, 0.75]), Z=ctx.pick([0, 0, -2.0])))


def some_query(ctx, w, small, group=True):
    if small and ctx.chance(0.5):
        return picture(ctx, w)
    names = [n for n in queries.BATCH + queries.PLAIN + (queries.SLOW + ["generateLUT"] if small else []) if group or not n.startswith("group.")]
    name = ctx.pick(names)
    n = int(ctx.pick([1, 2, 3, 12]))
    return queries.build_plain(ctx, w, name) if name in queries.PLAIN + queries.SMALL_ONLY else queries.build(ctx, w, name, n)


def twice(ctx, make):
    """ the same random choices twice """
    state = copy.deepcopy(ctx.rng.bit_generator.state)
    a = make()
    ctx.rng.bit_generator.state = state
    return a, make()


def sched_kind(name):
    return name.split("+")[0].split(":")[0]


def finish(ctx, sched, out, names):
    ctx.count["switches"] += len(sched.switches)
    ctx.count["stuck"] += sched.stuck
    for me, fn, line, to in sched.switches:
        ctx.seen(ctx.scenario, fn, line, sched_kind(names[me]))
    ctx.count["schedules"] += 1
    for i, (r, err) in enumerate(out):
        if isinstance(err, (core.Violated, core.Skip, core.CaseTimeout)):
            raise err
        if err is not None:
            ctx.fail("exception", "thread %d raised %s: %s, the same work one after the other does not" % (i, type(err).__name__, str(err)[:300]),
                     switches=sched.switches[-20:])


def shared(ctx):
    """ one world, several threads which only ask """
    small = ctx.chance(0.6)
    wa, wb = twice(ctx, lambda: queries.World(ctx, small=small))
    n = ctx.pick([2, 2, 3])

    def plan(w):
        base = [some_query(ctx, w, small) for _ in range(3)]
        # some of the questions are the same in several threads
        return [[ctx.pick(base) if ctx.chance(0.4) else some_query(ctx, w, small) for _ in range(int(ctx.rng.integers(1, 4)))] for _ in range(n)]

    state = copy.deepcopy(ctx.rng.bit_generator.state)
    plan_a = plan(wa)
    ctx.rng.bit_generator.state = state
    plan_b = plan(wb)
    want = [[ask(wb, q) for q in qs] for qs in plan_b]
    if ctx.chance(0.4):
        q = plan_a[0][0]
        ask(wa, q)
    before = parameters(wa.cam), parameters(wa.group)
    sched = Scheduler(ctx.rng, ctx.pick([0.02, 0.1, 0.3]))
    jobs = [lambda qs=qs: [ask(wa, q) for q in qs] for qs in plan_a]
    out = sched.run(jobs)
    names = ["+".join(q["name"] for q in qs)[:60] for qs in plan_a]
    ctx.note(threads=names, switches=len(sched.switches))
    finish(ctx, sched, out, names)
    for i in range(n):
        for q, got, w in zip(plan_a[i], out[i][0], want[i]):
            ctx.check(same(got, w), "shared", "%s gives another answer while other threads ask the same camera (%s)" % (q["name"], [m for k, m in enumerate(names) if k != i]),
                      spec=wa.s, kw=q["kw"], switches=sched.switches[-30:])
    ctx.check((parameters(wa.cam), parameters(wa.group)) == before, "parameters", "a parameter has changed", spec=wa.s)
    # and afterwards the answers are still the same
    for q, w in zip(plan_a[0], want[0]):
        ctx.check(same(ask(wa, q), w), "shared", "%s gives another answer after several threads have asked the camera" % q["name"], spec=wa.s, kw=q["kw"])
    ctx.sample(spec=wa.s, threads=names, switches=len(sched.switches))


def program(ctx, tag):
    """ a list of steps of one thread on cameras of its own; each is a function of a dict of its objects """
    c = gen.ct()
    small = ctx.chance(0.5)
    seed = int(ctx.rng.integers(1 << 60))
    kinds = [ctx.pick(["set", "set", "ask", "ask", "ask", "picture", "files", "rotate", "gps", "fit", "new", "info"]) for _ in range(int(ctx.rng.integers(3, 8)))]

    def run(path):
        # everything is drawn from a generator of its own, so that the program is the same wherever it runs
        own = copy.copy(ctx)
        own.rng = np.random.default_rng(seed)
        answers = []
        w = queries.World(own, small=small)
        for k, kind in enumerate(kinds):
            s = w.s
            if kind == "set":
                key = own.pick(["elev", "fx", "fy", "x", "y", "roll", "cy", "heading" if s["orient"] == "thr" else "yaw"])
                setattr(w.cam, gen.NAMES[key], s[key] * 1.03 + 0.2)
                w.s = gen.spec_of(w.cam)
            elif kind in ("ask", "picture"):
                q = picture(own, w) if kind == "picture" and small else some_query(own, w, small)
                answers.append((q["name"], ask(w, q)))
            elif kind == "files":
                name = os.path.join(path, "cam_%d.json" % k)
                w.cam.save(name)
                cam = c.load_camera(name)
                answers.append(("load_camera", [getattr(cam, p) for p in cam.parameters.parameters]))
            elif kind == "rotate":
                w.cam.rotateSpace(float(own.rng.uniform(-90, 90)))
                w.s = gen.spec_of(w.cam)
                answers.append(("rotateSpace", w.cam.orientation.R.copy()))
            elif kind == "gps":
                w.cam.setGPSpos("%.5f°, %.5f°" % (own.rng.uniform(-60, 60), own.rng.uniform(-170, 170)))
                w.s = gen.spec_of(w.cam)
                answers.append(("setGPSpos", (w.cam.gps_lat, w.cam.gps_lon)))
            elif kind == "new":
                w = queries.World(own, small=small)
            elif kind == "info":
                p = queries.visible(own, s, 3)
                w.cam.addHorizonInformation(p, uncertainty=10)
                w.cam.addLandmarkInformation(p, own.rng.normal(size=(3, 3)) * 30, [3, 3, 5])
                answers.append(("getLogProbability", w.cam.getLogProbability()))
            elif kind == "fit":
                cam = gen.make_camera(s)
                x = np.array([[0.0, 40, 0], [5, 50, 0], [-5, 60, 1]]) + ref.position(s)
                im = np.nan_to_num(np.asarray(cam.imageFromSpace(x, hide_backpoints=False)))
                cam.addCustomoLogProbability(lambda cam=cam: -float(np.nansum((np.nan_to_num(np.asarray(cam.imageFromSpace(x, hide_backpoints=False))) - im) ** 2)) / 100)
                cam.fit([c.FitParameter("elevation_m", lower=s["elev"] - 2, upper=s["elev"] + 2, value=s["elev"] + 1.0)], iterations=2)
                answers.append(("fit", float(cam.elevation_m)))
        return answers
    return kinds, run


def own(ctx):
    """ threads with cameras of their own """
    n = ctx.pick([2, 2, 3])
    programs = [program(ctx, i) for i in range(n)]

    def folder(name):
        path = ctx.tmp(name)
        os.makedirs(path, exist_ok=True)
        return path

    want = [run(folder("a%d" % i)) for i, (kinds, run) in enumerate(programs)]
    sched = Scheduler(ctx.rng, ctx.pick([0.01, 0.05, 0.2]))
    out = sched.run([lambda run=run, i=i: run(folder("b%d" % i)) for i, (kinds, run) in enumerate(programs)])
    names = ["own:" + "+".join(kinds)[:60] for kinds, _ in programs]
    ctx.note(threads=names, switches=len(sched.switches))
    finish(ctx, sched, out, names)
    for i in range(n):
        got = out[i][0]
        ctx.check([g[0] for g in got] == [w[0] for w in want[i]], "own", "other work was done: %s" % names[i])
        for (name, g), (_, w) in zip(got, want[i]):
            ctx.check(same(g, w), "own", "%s of a camera which only one thread uses gives another answer while other threads use other cameras (%s)" % (name, names), switches=sched.switches[-30:])
    ctx.sample(threads=names, switches=len(sched.switches))


SCENARIOS = dict(shared=(shared, 500, 10000), own=(own, 350, 6000))
