"""C21 a query that does not finish leaves no trace"""
import collections
import copy
import os
import sys

import numpy as np

from rtm import core, gen, queries, ref
from rtm.props.c06 import freeze, parameters, same

RULE = ("random sequences of queries on two equal worlds (camera with fit information, group): in one of them queries are interrupted at a random line of the package (an error is raised there, every line "
        "which the finished query runs through is a possible point) or asked with unusable arguments, in the other one they are finished or not asked; the parameters and all later answers are compared. "
        "Fits and samplings whose probability fails at a random evaluation; distinct = (query, function and line of the interruption relative to its function, kind of error)")
ASSUMPTIONS = ["an interruption is an error raised at the begin of a line of the package, as the interpreter does for a signal or a failing call on that line"]
REQUIRE = {"judged:parameters": 5000, "judged:later": 8000, "interrupted": 4000, "interrupted:maps": 600, "refused": 400, "judged:consistent": 150, "judged:next-fit": 60, "judged:plot": 60}


class Injected(BaseException):
    """ like KeyboardInterrupt: nothing may treat it as an ordinary error """


def traced(fn, at=None, error=None):
    """ run fn and list the lines of the package it runs through; if at is given, raise the error there """
    where = os.path.join(os.path.realpath(core.REPO), "cameratransform")
    lines = []
    ours = {}

    def local(frame, event, arg):
        if event == "line":
            lines.append((frame.f_code, frame.f_lineno))
            if at is not None and len(lines) - 1 == at:
                raise error
        return local

    def begin(frame, event, arg):
        code = frame.f_code
        if code not in ours:
            ours[code] = os.path.realpath(code.co_filename).startswith(where)
        return local if ours[code] else None

    old = sys.gettrace()
    sys.settrace(begin)
    try:
        return fn(), None, lines
    except BaseException as err:
        sys.settrace(old)
        if isinstance(err, (core.Violated, core.Skip, core.CaseTimeout)):
            raise
        return None, err, lines
    finally:
        sys.settrace(old)


def twice(ctx, make):
    """ the same random choices twice """
    state = copy.deepcopy(ctx.rng.bit_generator.state)
    a = make()
    ctx.rng.bit_generator.state = state
    return a, make()


def information(ctx, w):
    p = queries.visible(ctx, w.s, 3)
    w.cam.addHorizonInformation(p, uncertainty=10)
    w.cam.addObjectHeightInformation(p, p - [0, 5], 2.0, 1.0)
    w.cam.addObjectLengthInformation(p, p + [5, 0], 2.0, 1.0)
    w.cam.addLandmarkInformation(p, ctx.rng.normal(size=(3, 3)) * 30, [3, 3, 5])
    w.group.addBaselineInformation(20.0)


def shown(fn):
    import matplotlib.pyplot as plt
    plt.close("all")
    out = fn()
    pictures = [(np.asarray(im.get_array()), tuple(im.get_extent())) for im in plt.gca().images]
    return out, pictures


def picture_query(ctx, w):
    """ undistorted pictures and top views, their maps are kept between calls """
    s, cam = w.s, w.cam
    im = ctx.rng.integers(0, 255, (s["h"], s["w"]) + ctx.pick([(), (3,), (4,)])).astype(np.uint8)
    if ctx.chance(0.5):
        name, kw = "undistortImage", ctx.pick([{}, dict(extent=[0.0, s["w"] * 0.7, 0.0, s["h"] * 0.6]), dict(scaling=2), dict(extent=[2, s["w"] + 3, -2, s["h"] - 1], scaling=1.5)])
    else:
        extent = [s["x"] - 10.0, s["x"] + 10.0, s["y"] + 5.0, s["y"] + 20.0]
        kw = ctx.pick([dict(), dict(Z=-2.0), dict(hide_backpoints=False)])
        name, kw = "getTopViewOfImage", dict(extent=extent if ctx.chance(0.7) else [e - 3 for e in extent], scaling=ctx.pick([0.5, 0.75]), **({} if name_without(ctx) else {k: v for k, v in kw.items() if k == "Z"}))
    plot = ctx.chance(0.25)
    if plot:
        return dict(name=name + ".plot", fn=lambda im, **k: shown(lambda: getattr(cam, name)(im, do_plot=True, **k)), args=[im], kw=dict(kw))
    return dict(name=name, fn=getattr(cam, name), args=[im], kw=dict(kw))


def name_without(ctx):
    return ctx.chance(0.5)


def bad_arguments(ctx, q):
    """ arguments which make no sense """
    args, kw = list(q["args"]), dict(q["kw"])
    where = [i for i, a in enumerate(args) if isinstance(a, np.ndarray)]
    keys = sorted(kw)
    if where and (not keys or ctx.chance(0.6)):
        i = ctx.pick(where)
        a = args[i]
        args[i] = ctx.pick([None, "nonsense", a[..., :1] if a.ndim else a, np.concatenate([a, a], axis=-1) if a.ndim else a, np.zeros(a.shape, dtype=object), a.ravel()[:1], np.full(a.shape, np.nan)])
    elif keys:
        k = ctx.pick(keys)
        kw[k] = ctx.pick(["nonsense", [np.nan] * 4, [0.0, 1.0], np.zeros((7, 5)), float("nan")])
    return args, kw


def parameters_of(w):
    return parameters(w.cam), parameters(w.group), freeze(len(w.cam.log_prob)), freeze(len(w.group.log_prob))


def sequence(ctx, small):
    wa, wb = twice(ctx, lambda: queries.World(ctx, small=small))
    if ctx.chance(0.4):
        state = copy.deepcopy(ctx.rng.bit_generator.state)
        information(ctx, wa)
        ctx.rng.bit_generator.state = state
        information(ctx, wb)
    start = parameters_of(wa)
    kept = []
    for _ in range(int(ctx.rng.integers(4, 9))):
        maps = small and ctx.chance(0.6)
        if maps:
            make = lambda w: picture_query(ctx, w)
            name = "maps"
        else:
            name = ctx.pick(queries.BATCH + queries.PLAIN + (["generateLUT"] * 2 + queries.SLOW if small else []))
            n = int(ctx.pick([1, 2, 3, 12]))
            make = lambda w: queries.build_plain(ctx, w, name) if name in queries.PLAIN + queries.SMALL_ONLY else queries.build(ctx, w, name, n)
        state = copy.deepcopy(ctx.rng.bit_generator.state)
        qa = make(wa)
        ctx.rng.bit_generator.state = state
        qb = make(wb)
        name = qa["name"]
        if ctx.chance(0.15):
            # unusable arguments
            args, kw = bad_arguments(ctx, qa)
            try:
                qa["fn"](*args, **kw)
                ctx.count["accepted"] += 1
            except Exception:
                ctx.count["refused"] += 1
            ctx.note(query=name, refused=True)
            what = "was asked with unusable arguments"
        else:
            want, err, lines = traced(lambda: qb["fn"](*qb["args"], **qb["kw"]))
            if err is not None:
                raise err
            want = copy.deepcopy(want)
            if lines and ctx.chance(0.75):
                points = sorted(set(lines), key=lambda p: (p[0].co_qualname, p[1]))
                point = ctx.pick(points)
                at = ctx.pick([i for i, p in enumerate(lines) if p == point])
                error = ctx.pick([KeyboardInterrupt, MemoryError, Injected])
                got, err, ran = traced(lambda: qa["fn"](*qa["args"], **qa["kw"]), at, error())
                reached = len(ran) > at
                ctx.count["interrupted" if reached else "finished"] += 1
                if reached and maps:
                    ctx.count["interrupted:maps"] += 1
                ctx.count["swallowed"] += reached and err is None
                ctx.seen(name, point[0].co_qualname, point[1] - point[0].co_firstlineno, error.__name__)
                ctx.note(query=name, kw=qa["kw"], interrupted=(point[0].co_qualname, point[1], at), error=error.__name__)
                what = "was interrupted in %s (line %d)" % (point[0].co_qualname, point[1])
            else:
                got = qa["fn"](*qa["args"], **qa["kw"])
                ctx.check(same(got, want), "later", "%s gives another answer than on a camera where nothing was interrupted" % name, spec=wa.s, got=got, want=want, kw=qa["kw"])
                ctx.note(query=name, kw=qa["kw"])
                what = "was asked"
            kept.append((name, qa, qb, want))
        ctx.check(parameters_of(wa) == start, "parameters", "a parameter has changed after %s %s" % (name, what), spec=wa.s)
        again = [k for k in kept if k[0].split(".")[0] == name.split(".")[0]][-4:] + ([ctx.pick(kept)] if kept else [])
        for k in ctx.rng.permutation(len(again))[:3]:
            other, qa, qb, want = again[k]
            got = ctx.call(other, qa["fn"], *qa["args"], **qa["kw"])
            ctx.check(same(got, want), "plot" if other.endswith("plot") else "later", "%s gives another answer after %s %s" % (other, name, what), spec=wa.s, kw=qa["kw"],
                      got=np.asarray(got, dtype=float).ravel()[:9] if isinstance(got, np.ndarray) else None)
    ctx.sample(spec=wa.s, queries=[k[0] for k in kept])


def any_query(ctx):
    sequence(ctx, False)


def small_images(ctx):
    sequence(ctx, True)


class Failing:
    """ a probability which fails when it is asked for the n-th time """

    def __init__(self, inner, n, error):
        self.inner, self.n, self.error, self.calls = inner, n, error, 0

    def __call__(self):
        self.calls += 1
        if self.calls == self.n:
            raise self.error
        return self.inner()


def answers(ctx, cam, s, pts):
    im, x = pts
    return [np.asarray(v, dtype=float) for v in (cam.imageFromSpace(x, hide_backpoints=False), cam.getRay(im)[1], cam.getRay(im)[0], cam.lens.distortedFromImage(im), cam.getPos())]


def fits(ctx):
    c = gen.ct()
    s = gen.spec(ctx, moderate=True)
    if s["orient"] == "ypr":
        names = ["elevation_m", "yaw_deg", "pitch_deg", "roll_deg", "pos_x_m"]
    else:
        names = ["elevation_m", "tilt_deg", "heading_deg", "roll_deg", "pos_x_m"]
    names = [names[i] for i in ctx.rng.permutation(len(names))[:int(ctx.rng.integers(1, 4))]]
    cam = ctx.call("Camera", gen.make_camera, s)
    x = np.array(ref.well_conditioned(s, gen.space_points(ctx, s, 40, ref)))[:5]
    if len(x) < 3:
        raise core.Skip()
    im = np.asarray(cam.imageFromSpace(x, hide_backpoints=False), dtype=float)
    ok = np.all(np.isfinite(im), axis=-1)
    x, im = x[ok], im[ok]
    if len(x) < 2:
        raise core.Skip()
    true = gen.spec_of(cam)

    def params():
        out = []
        for n in names:
            v = getattr(cam, n)
            out.append(c.FitParameter(n, lower=float(v) - 3, upper=float(v) + 3, value=float(v) + off[n]))
        return out

    off = {n: float(ctx.rng.uniform(-1.5, 1.5)) for n in names}
    start = params()
    probability = lambda camera: lambda: float(-np.sum((np.nan_to_num(np.asarray(camera.imageFromSpace(x, hide_backpoints=False), dtype=float)) - im) ** 2) / 200)
    sampling = ctx.chance(0.4)
    error = ctx.pick([KeyboardInterrupt, ValueError, Injected])
    n = int(ctx.pick([1, 2, 3, 5, 8, 13, 30, 100]))
    bad = Failing(probability(cam), n, error("stopped"))
    cam.addCustomoLogProbability(bad)
    before = {k: getattr(cam, k) for k in cam.parameters.parameters}

    def run(camera, start, seed):
        np.random.seed(seed)
        if sampling:
            return camera.metropolis(start, iterations=120, disable_bar=True, print_trace=False)
        return camera.fit(start, iterations=6)

    failed = False
    try:
        run(cam, start, 5)
    except (error, Exception) as err:
        if not isinstance(err, error):
            raise
        failed = True
    ctx.count["failed" if failed else "finished"] += 1
    for k in cam.parameters.parameters:
        if k not in names:
            ctx.check(same(getattr(cam, k), before[k]), "consistent", "%s has changed in a fit of %s" % (k, names), spec=s)
    pts = gen.image_points(ctx, s, 5, inside=True), x
    if failed:
        now = gen.spec_of(cam)
        fresh = gen.make_camera(now)
        for a, b in zip(answers(ctx, cam, now, pts), answers(ctx, fresh, now, pts)):
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-7, equal_nan=True), "consistent",
                      "after a failed %s the answers are not those of the parameters the camera reports" % ("sampling" if sampling else "fit"), spec=s, names=names, got=a, want=b)
        ctx.seen("fit", sampling, n, error.__name__, len(names), s["orient"])
        # the next one does not know about the failed one
        if ctx.chance(0.5):
            cam.clearLogProbability()
            cam.addCustomoLogProbability(probability(cam))
        else:
            # the same information does not fail any more
            bad.n = -1
            ctx.check(np.isclose(ctx.call("getLogProbability", cam.getLogProbability), bad.inner(), rtol=1e-12, atol=1e-12), "next-fit", "the information of the camera has changed after a failed fit", spec=s)
        other = gen.make_camera(true)
        other.addCustomoLogProbability(probability(other))
        mk = lambda: [c.FitParameter(n_, lower=float(true_value(true, n_)) - 3, upper=float(true_value(true, n_)) + 3, value=float(true_value(true, n_)) + off[n_]) for n_ in names]
        again = start if ctx.chance(0.5) else mk()
        ctx.call("fit", run, cam, again, 7)
        ctx.call("fit", run, other, mk(), 7)
        for k in names:
            a, b = float(np.mean(getattr(cam, k))), float(np.mean(getattr(other, k)))
            ctx.check(np.isclose(a, b, rtol=1e-9, atol=1e-9), "next-fit", "%s after a failed one gives %s = %s, without the failed one %s" % ("sampling" if sampling else "fit", k, a, b), spec=s, names=names)


def true_value(s, name):
    return s[{v: k for k, v in gen.NAMES.items()}[name]]


SCENARIOS = dict(any_query=(any_query, 700, 15000), small_images=(small_images, 500, 10000), fits=(fits, 240, 3000))
