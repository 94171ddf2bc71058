"""C15 fit information and fitting"""
import numpy as np
from scipy import stats

from rtm import gen, ref
from rtm.core import Skip

RULE = ("random combinations and orders of added, cleared and plotted information interleaved with changes of the camera, each evaluated against an independent sum of log densities; "
        "fits of random subsets of the parameters with a before/after monitor of all parameters; distinct = (kinds of terms, shapes, finite or impossible, projection, lens) and (fitted parameters, method, outcome)")
ASSUMPTIONS = ["measured heights, lengths, horizons and rays are those of a fresh camera with the same parameters (they are decided by C02, C09 and C14)",
               "a landmark is scored by 1000 positions on its line of sight within twice the largest uncertainty around the nearest position",
               "recovery of the truth is judged by the log probability that the fit reaches, for starts near the truth"]
REQUIRE = {"judged:logprob": 6000, "judged:logprob-impossible": 150, "judged:term-height": 1000, "judged:term-length": 1000, "judged:term-landmark": 700, "judged:term-gps": 500,
           "judged:term-horizon": 500, "judged:term-custom": 500, "judged:only-plot": 300, "judged:fit-others": 150, "judged:fit-bounds": 150, "judged:fit-better": 150,
           "judged:fit-state": 150, "judged:recover": 50, "judged:group-logprob": 600, "judged:no-start": 15, "judged:plot": 100, "judged:input": 1000}


def state(obj):
    return {n: getattr(obj, n) for n in obj.parameters.parameters}


def same_state(a, b, skip=()):
    bad = []
    for n in a:
        if n in skip:
            continue
        x, y = a[n], b[n]
        if not (x is y or x == y or (x != x and y != y)):
            bad.append("%s: %s -> %s" % (n, x, y))
    return bad


def fresh(cam):
    s = gen.spec_of(cam)
    return s, gen.make_camera(s)


def norm_logpdf(x, loc, scale):
    x, loc, scale = np.broadcast_arrays(np.asarray(x, dtype=float), np.asarray(loc, dtype=float), np.asarray(scale, dtype=float))
    return float(np.sum(-0.5 * ((x - loc) / scale) ** 2 - np.log(scale) - 0.5 * np.log(2 * np.pi)))


def landmark_score(cam, im, lm, unc):
    im, lm, unc = np.atleast_2d(im), np.atleast_2d(lm).astype(float), np.asarray(unc, dtype=float)
    o, d = cam.getRay(im, normed=True)
    o = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m], dtype=float)
    total = 0.0
    for i in range(len(im)):
        dist = abs(np.dot(lm[i] - o, d[i]))
        u = unc if unc.ndim < 2 else unc[i]
        f = dist + np.linspace(-2, 2, 1000) * unc.max()
        total += norm_logpdf(o + f[:, None] * d[i], lm[i], u)
    return total


class Term:
    def __init__(self, kind, score, additional=None, desc=None):
        self.kind, self.score, self.additional, self.desc = kind, score, additional, desc


def shaped(ctx, s, n):
    p = gen.image_points(ctx, s, n)
    p = p[ref.valid_image(s, p)]
    return p


def ground_points(ctx, s, n, Z=0.0):
    p = shaped(ctx, s, n * 3)
    d = ref.ray(s, p)
    t = (Z - s["elev"]) / d[:, 2]
    return p[(t > 0.1) & (t < 500)][:n]


def variation_of(ctx, n, single):
    """ number, array or a parameter with a value """
    u = ctx.rng.random()
    v = float(np.exp(ctx.rng.uniform(np.log(0.05), np.log(5))))
    if u < 0.5:
        return v, None, lambda: v
    if u < 0.75 and not single:
        a = np.exp(ctx.rng.uniform(np.log(0.05), np.log(5), n))
        return a, None, lambda: a
    par = gen.ct().FitParameter("variation_%d" % ctx.rng.integers(1000), lower=0, upper=10, value=v)
    return par, par, lambda: float(par.value)


def add_term(ctx, cam, s, kind):
    """ adds a random term of this kind to the real camera, returns its oracle (None if there is nothing to add) """
    n = int(ctx.pick([1, 1, 2, 5, 12]))
    single = ctx.chance(0.25)
    only = ctx.chance(0.12)
    kw = dict(only_plot=True) if only else ({} if ctx.chance(0.8) else dict(only_plot=False))
    if ctx.chance(0.2):
        kw["plot_color"] = ctx.pick(["C1", "r"])
    if kind in ("height", "length"):
        Z = ctx.pick([0, 0, 1.5, -2.0]) if kind == "length" else 0
        feet = ground_points(ctx, s, n, Z) if not ctx.chance(0.05) else shaped(ctx, s, n)
        if len(feet) == 0:
            return None
        n = len(feet)
        heads = feet + ctx.rng.normal(size=feet.shape) * s["h"] * 0.05 - ([0, s["h"] * 0.1] if kind == "height" else 0)
        heads = np.where(ref.valid_image(s, heads)[:, None], heads, feet - 0.25)
        if single:
            feet, heads, n = feet[0], heads[0], 1
        target = float(ctx.rng.uniform(0.2, 5)) if single or ctx.chance(0.6) else ctx.rng.uniform(0.2, 5, n)
        var, par, value = variation_of(ctx, n, single)
        if kind == "length" and (Z != 0 or ctx.chance(0.2)):
            kw["Z"] = Z
        before = [np.array(feet), np.array(heads), np.array(target)]
        fn = cam.addObjectHeightInformation if kind == "height" else cam.addObjectLengthInformation
        ctx.call("add-" + kind, fn, feet, heads, target, var, **kw)

        def score(c):
            m = c.getObjectHeight(before[0], before[1]) if kind == "height" else c.getObjectLength(before[0], before[1], Z)
            return norm_logpdf(m, before[2], value())

        def untouched():
            return all(np.array_equal(a, b) for a, b in zip(before, [feet, heads, np.array(target)]))
    elif kind in ("landmark", "gps"):
        im = shaped(ctx, s, n)
        if len(im) == 0:
            return None
        n = len(im)
        d = ref.ray(s, im)
        x = ref.position(s) + d * ctx.rng.uniform(1, 300, (n, 1)) + ctx.rng.normal(size=(n, 3)) * ctx.pick([0, 1, 10])
        if ctx.chance(0.2):
            x = ref.position(s) + ctx.rng.normal(size=(n, 3)) * 50
        unc = ctx.pick([float(ctx.rng.uniform(0.1, 10)), [3, 3, 5], ctx.rng.uniform(0.2, 9, 3), ctx.rng.uniform(0.2, 9, (n, 3))])
        par = None
        if kind == "gps":
            x = np.asarray(cam.gpsFromSpace(x), dtype=float)
        if single:
            im, x = im[0], x[0]
            if np.ndim(unc) == 2:
                unc = unc[0]
        before = [im.copy(), x.copy(), np.array(unc)]
        fn = cam.addLandmarkInformation if kind == "landmark" else cam.addLandmarkInformationGPS
        ctx.call("add-" + kind, fn, im, x, unc, **kw)

        def score(c):
            lm = before[1] if kind == "landmark" else c.spaceFromGPS(np.atleast_2d(before[1]))
            return landmark_score(c, before[0], lm, before[2])

        def untouched():
            return np.array_equal(before[0], im) and np.array_equal(before[1], x) and np.array_equal(before[2], np.array(unc))
    elif kind == "horizon":
        p = np.c_[ctx.rng.uniform(0, s["w"] - 1, n), ctx.rng.uniform(0, s["h"], n)]
        if ctx.chance(0.3):
            p = np.round(p)
        if single:
            p, n = p[0], 1
        unc = float(ctx.rng.uniform(0.5, 30)) if single or ctx.chance(0.6) else ctx.rng.uniform(0.5, 30, n)
        before = [p.copy(), np.array(unc)]
        arg = p.tolist() if ctx.chance(0.3) else p
        ctx.call("add-horizon", cam.addHorizonInformation, arg, unc, **kw)
        par = None

        def score(c):
            h = np.atleast_2d(np.asarray(c.getImageHorizon(np.atleast_2d(before[0])[:, 0]), dtype=float))
            return norm_logpdf(np.atleast_2d(before[0])[:, 1] - h[:, 1], 0, before[1])

        def untouched():
            return np.array_equal(before[0], np.array(arg)) and np.array_equal(before[1], np.array(unc))
    else:
        loc, scale = float(ctx.rng.uniform(0, 60)), float(ctx.rng.uniform(0.5, 20))
        what = ctx.pick(["elevation_m", "pos_x_m", "roll_deg", "constant", "impossible", "extra"])
        par = None
        if what == "impossible" and ctx.chance(0.7):
            what = "elevation_m"
        if what == "constant":
            c0 = float(ctx.rng.normal())
            f, score = (lambda: c0), (lambda c: c0)
        elif what == "impossible":
            # a hard limit on a parameter
            f = lambda: 0.0 if cam.elevation_m > loc / 3 else -np.inf
            score = lambda c: 0.0 if c.elevation_m > loc / 3 else -np.inf
        elif what == "extra":
            par = gen.ct().FitParameter("extra_%d" % ctx.rng.integers(1000), lower=-1, upper=1, value=float(ctx.rng.uniform(-1, 1)))
            f = score = lambda *a: -float(par.value) ** 2
        else:
            f = lambda: stats.norm(loc, scale).logpdf(getattr(cam, what))
            score = lambda c: norm_logpdf(getattr(c, what), loc, scale)
        args = [[par]] if par is not None else ([] if ctx.chance(0.7) else [ctx.pick([None, [], ()])])
        ctx.call("addCustomoLogProbability", cam.addCustomoLogProbability, f, *args)
        only = False
        untouched = lambda: True
    t = Term(kind, score, par)
    t.only, t.untouched = only, untouched
    return t


def judge(ctx, cam, terms, s0):
    before = state(cam)
    s, twin = fresh(cam)
    parts = [(t.kind, t.score(twin)) for t in terms if not t.only]
    want = float(np.sum([p for _, p in parts])) if parts else 0.0
    if want != want:
        want = -np.inf
    got = ctx.call("getLogProbability", cam.getLogProbability)
    ctx.check(np.ndim(got) == 0, "logprob", "the log probability is %r" % (got,))
    tol = 1e-7 * (1 + sum(abs(p) for _, p in parts if np.isfinite(p)))
    kinds = tuple(sorted(k for k, _ in parts))
    if np.isinf(want):
        ctx.check(got == want, "logprob-impossible", "the log probability of an impossible camera is %s" % got, terms=parts, spec=s)
    else:
        ctx.check(abs(got - want) <= tol, "logprob", "the log probability is %s and not %s" % (got, want), terms=parts, spec=s)
    for k in set(kinds):
        ctx.count["judged:term-" + k] += 1
    ctx.seen("logprob", kinds[:4], np.isinf(want), s["proj"], s["lens"])
    for t in terms:
        ctx.check(t.untouched(), "input", "the data given to %s was changed" % t.kind)
    bad = same_state(before, state(cam))
    ctx.check(not bad, "side-effect", "evaluating the log probability changed the camera: %s" % bad[:3])
    # asking again gives the same answer
    again = cam.getLogProbability()
    ctx.check(again == got or (again != again and got != got), "logprob", "asking twice for the log probability gave %s and %s" % (got, again))
    return want


CHANGES = ["elevation_m", "tilt_deg", "heading_deg", "roll_deg", "pos_x_m", "pos_y_m", "focallength_x_px", "focallength_y_px", "center_y_px", "k1", "a", "gps_lat", "yaw_deg", "pitch_deg"]


def change(ctx, cam):
    name = ctx.pick([n for n in CHANGES if n in cam.parameters.parameters])
    v = float(getattr(cam, name))
    if name == "elevation_m":
        new = float(np.exp(ctx.rng.uniform(np.log(0.5), np.log(100)))) if ctx.chance(0.9) else -5.0
    elif name.endswith("_px"):
        new = v * float(ctx.rng.uniform(0.8, 1.25))
    elif name in ("k1", "a"):
        new = float(ctx.rng.uniform(0, 0.05))
    elif name == "gps_lat":
        new = v + float(ctx.rng.normal() * 1e-4)
    else:
        new = v + float(ctx.rng.normal() * ctx.pick([0.5, 5, 30]))
    mode = ctx.rng.integers(3)
    if mode == 0:
        cam.parameters.set_fit_parameters([name], [new])
    elif mode == 1:
        cam.parameters.set_fit_parameters({name: new})
    else:
        setattr(cam, name, new)
    ctx.note(change=name, value=new)


def terms(ctx):
    s = gen.spec(ctx, moderate=True, small=ctx.chance(0.8))
    if ctx.chance(0.5):
        s["lens"] = "none"
    cam = ctx.call("Camera", gen.make_camera, s)
    cam.setGPSpos(s["lat"], s["lon"], s["elev"])
    have = []
    judge(ctx, cam, have, s)
    for _ in range(int(ctx.rng.integers(4, 14))):
        u = ctx.rng.random()
        if u < 0.55:
            kind = ctx.pick(["height", "length", "landmark", "gps", "horizon", "custom", "custom"])
            before = cam.getLogProbability()
            t = add_term(ctx, cam, gen.spec_of(cam), kind)
            if t is None:
                continue
            ctx.note(add=kind, only=t.only)
            have.append(t)
            if t.only:
                after = cam.getLogProbability()
                ctx.check(before == after, "only-plot", "information which is only plotted changed the log probability from %s to %s" % (before, after), kind=kind)
                ctx.check(not [p for p in cam.additional_parameters if p is t.additional], "only-plot", "information which is only plotted added a parameter")
        elif u < 0.8:
            change(ctx, cam)
        elif u < 0.9:
            par = [t.additional for t in have if t.additional is not None]
            if par:
                par[0].set_value(float(ctx.rng.uniform(0.05, 1)))
                ctx.note(set=str(par[0]))
        elif u < 0.95:
            cam.clearLogProbability()
            have = []
            ctx.note(clear=True)
        judge(ctx, cam, have, s)
        extra = [t.additional for t in have if t.additional is not None and not t.only]
        got = list(cam.additional_parameters)
        ctx.check(len(got) == len(extra) and all(a is b for a, b in zip(got, extra)), "additional", "the additional parameters are %s and not %s" % ([str(g) for g in got], [str(e) for e in extra]))
    ctx.sample(terms=[t.kind for t in have])


def group_terms(ctx):
    from rtm.props import c13
    specs, target = c13.stereo_specs(ctx)
    x = c13.common_points(ctx, specs, target, ctx.pick([2, 3, 10]))
    if len(x) < 2:
        raise Skip()
    g = ctx.call("CameraGroup", c13.make_group, specs)
    a, b = [np.asarray(v, dtype=float) for v in g.imagesFromSpace(x)]
    noise = ctx.pick([0, 1, 10])
    a, b = a + ctx.rng.normal(size=a.shape) * noise, b + ctx.rng.normal(size=b.shape) * noise
    if not (ref.valid_image(specs[0], a).all() and ref.valid_image(specs[1], b).all()):
        raise Skip()
    own = []
    parts = []
    slack = [0.0]
    if ctx.chance(0.7):
        unc = float(ctx.rng.uniform(0.3, 5))
        kw = dict(uncertainty=unc) if ctx.chance(0.7) else {}
        g.addPointCorrespondenceInformation(a, b, **kw)
        sigma = kw.get("uncertainty", 1)

        def corr(cams):
            total = 0
            for (c1, p1), (c2, p2) in (((cams[0], a), (cams[1], b)), ((cams[1], b), (cams[0], a))):
                o, d = c1.getRay(p1)
                q1, q2 = np.asarray(c2.imageFromSpace(o + d), dtype=float), np.asarray(c2.imageFromSpace(o + 2 * d), dtype=float)
                e = q2 - q1
                dist = np.abs(e[:, 0] * (p2 - q1)[:, 1] - e[:, 1] * (p2 - q1)[:, 0]) / np.linalg.norm(e, axis=1)
                total += norm_logpdf(dist, 0, sigma)
                # what rounding errors of far away image positions do
                td = 1e-11 * (np.abs(q1).max(1) + np.abs(q2).max(1) + np.abs(p2).max(1)) * (1 + np.linalg.norm(p2 - q1, axis=1) / np.linalg.norm(e, axis=1))
                slack[0] += np.nansum((dist * td + td ** 2) / sigma ** 2)
            return total
        parts.append(corr)
    if ctx.chance(0.7):
        target_b = float(ctx.rng.uniform(0.1, 30))
        kw = dict(uncertainty=float(ctx.rng.uniform(0.3, 5))) if ctx.chance(0.5) else {}
        g.addBaselineInformation(target_b, **kw)
        sig = kw.get("uncertainty", 6)
        parts.append(lambda cams: norm_logpdf(np.linalg.norm(ref.position(gen.spec_of(cams[0])) - ref.position(gen.spec_of(cams[1]))), target_b, sig))
    if ctx.chance(0.5):
        k = float(ctx.rng.normal())
        g.addCustomoLogProbability(lambda: k * g[0].elevation_m)
        parts.append(lambda cams: k * cams[0].elevation_m)
    for i, cam in enumerate(g):
        if ctx.chance(0.5):
            t = add_term(ctx, cam, gen.spec_of(cam), ctx.pick(["height", "length", "landmark", "custom"]))
            if t is not None and not t.only:
                own.append((i, t))
    for _ in range(4):
        cams = [gen.make_camera(gen.spec_of(c), gps=False) for c in g]
        slack[0] = 0.0
        values = [f(cams) for f in parts] + [t.score(cams[i]) for i, t in own]
        want = float(np.sum(values))
        if want != want:
            want = -np.inf
        got = ctx.call("group.getLogProbability", g.getLogProbability)
        tol = 1e-7 * (1 + sum(abs(v) for v in values if np.isfinite(v))) + slack[0]
        ctx.check(got == want or abs(got - want) <= tol, "group-logprob", "the log probability of the group is %s and not %s" % (got, want), terms=values)
        ctx.seen("group", len(parts), len(own), np.isinf(want), specs[0]["proj"])
        for c in g:
            if ctx.chance(0.5):
                change(ctx, c)


def group_sizes(ctx):
    """ groups of any size: every camera and every term of a camera counts exactly once """
    from rtm.props import c13
    n = ctx.pick([1, 3, 3, 4, 5])
    specs = [gen.spec(ctx, moderate=True, small=True, lens="none" if ctx.chance(0.5) else None) for _ in range(n)]
    g = ctx.call("CameraGroup", c13.make_group, specs)
    own = []
    for _ in range(int(ctx.rng.integers(1, 2 * n + 2))):
        i = int(ctx.rng.integers(n))
        t = add_term(ctx, g[i], gen.spec_of(g[i]), ctx.pick(["height", "length", "landmark", "custom", "custom"]))
        if t is not None and not t.only:
            own.append((i, t))
    for _ in range(4):
        if ctx.chance(0.2):
            i = int(ctx.rng.integers(n))
            g[i].clearLogProbability()
            own = [(k, t) for k, t in own if k != i]
        cams = [gen.make_camera(gen.spec_of(c), gps=False) for c in g]
        values = [t.score(cams[i]) for i, t in own]
        want = float(np.sum(values))
        if want != want:
            want = -np.inf
        got = ctx.call("group.getLogProbability", g.getLogProbability)
        tol = 1e-7 * (1 + sum(abs(v) for v in values if np.isfinite(v)))
        ctx.check(got == want or abs(got - want) <= tol, "group-logprob", "the log probability of a group of %d is %s and not %s" % (n, got, want), terms=values)
        ctx.seen("group-size", n, len(own), tuple(sorted({i for i, _ in own})), np.isinf(want))
        change(ctx, g[int(ctx.rng.integers(n))])


FITTABLE = dict(elevation_m=lambda v: (max(0.1, v * 0.3), v * 3 + 1), tilt_deg=lambda v: (v - 25, v + 25), heading_deg=lambda v: (v - 40, v + 40), roll_deg=lambda v: (v - 20, v + 20),
                pos_x_m=lambda v: (v - 20, v + 20), pos_y_m=lambda v: (v - 20, v + 20), focallength_x_px=lambda v: (v * 0.6, v * 1.5), focallength_y_px=lambda v: (v * 0.6, v * 1.5),
                yaw_deg=lambda v: (v - 40, v + 40), pitch_deg=lambda v: (v - 25, v + 25))


TURNS = ("heading_deg", "yaw_deg", "pitch_deg")


def scene(ctx, small=True):
    """ a camera with exact information about the scene """
    s = gen.spec(ctx, moderate=True, small=False, lens="none" if ctx.chance(0.7) else None)
    k = "pitch" if s["orient"] == "ypr" else "tilt"
    s[k] = float(ctx.rng.uniform(50, 80)) - (90 if k == "pitch" else 0)
    cam = gen.make_camera(s)
    feet = ground_points(ctx, s, 12)
    if len(feet) < 5:
        raise Skip()
    space = np.asarray(cam.spaceFromImage(feet, Z=0), dtype=float)
    h = ctx.rng.uniform(0.5, 2, len(feet))
    heads = np.asarray(cam.imageFromSpace(space + np.c_[np.zeros((len(feet), 2)), h]), dtype=float)
    if not (np.isfinite(heads).all() and ref.valid_image(s, heads).all()):
        raise Skip()
    return s, cam, feet, heads, space, h


def fits(ctx):
    s, cam, feet, heads, space, h = scene(ctx)
    mode = ctx.pick(["height", "landmark", "both"])
    if mode != "landmark":
        cam.addObjectHeightInformation(feet, heads, h, 0.05)
    if mode != "height":
        cam.addLandmarkInformation(feet, space, ctx.pick([[0.5, 0.5, 0.5], [3, 3, 5]]))
    # a term which observes every position that the fit tries
    tried = dict(n=0, impossible=0)

    def observer():
        tried["n"] += 1
        tried["impossible"] += bool(mode != "landmark" and np.isnan(cam.getObjectHeight(feet, heads)).any())
        return 0.0
    cam.addCustomoLogProbability(observer)
    want_best = cam.getLogProbability()
    names = [n for n in FITTABLE if n in cam.parameters.parameters and (mode != "height" or n in ("elevation_m", "tilt_deg", "pitch_deg", "roll_deg"))]
    names = list(ctx.rng.permutation(names))[:int(ctx.rng.integers(1, 4)) if ctx.chance(0.8) else int(ctx.rng.integers(4, 9))]
    names = [str(n) for n in names]
    truth = {n: float(getattr(cam, n)) for n in names}
    pars, start = [], {}
    C = gen.ct()
    at_start = ctx.chance(0.15)
    near = ctx.chance(0.7)
    for n in names:
        lo, hi = FITTABLE[n](truth[n])
        # a start near the truth
        v = truth[n] + (0.02 if near else 0.2) * float(ctx.rng.uniform(-1, 1)) * min(hi - truth[n], truth[n] - lo)
        if at_start:
            v = truth[n]
        if ctx.chance(0.15):
            # the truth lies outside of the bounds
            lo, hi = (v, hi) if v > truth[n] else (lo, v)
        start[n] = v
        if ctx.chance(0.12):
            p = C.FitParameter(n, mean=v, std=1.0, value=v)
            lo, hi = -np.inf, np.inf
        elif ctx.chance(0.1):
            p = C.FitParameter(n, distribution=stats.norm(v, 1), value=v)
            lo, hi = -np.inf, np.inf
        else:
            p = C.FitParameter(n, lower=lo, upper=hi, value=v)
        pars.append((p, lo, hi))
    before = state(cam)
    cam.parameters.set_fit_parameters(names, [start[n] for n in names])
    first = cam.getLogProbability()
    if ctx.chance(0.5):
        # where the camera was does not matter, the fit starts at the given values
        cam.parameters.set_fit_parameters(names, [float(ctx.rng.uniform(*FITTABLE[n](truth[n]))) for n in names])
    kw = {}
    method = ctx.pick([None, None, "Nelder-Mead", "Powell", "TNC"])
    if method:
        kw["method"] = method
    limited = False
    if ctx.chance(0.3):
        kw["iterations"] = int(ctx.pick([1, 3, 200, 500]))
        limited = kw["iterations"] < 100
    if not np.isfinite(first):
        # whether another start is found depends on the priors
        try:
            cam.fit([p for p, _, _ in pars], **kw)
        except ValueError:
            ctx.count["no other start"] += 1
        return
    try:
        result = cam.fit([p for p, _, _ in pars], **kw)
    except Exception as err:
        import traceback
        if method == "Powell" and traceback.extract_tb(err.__traceback__)[-1].filename.find("numpy") >= 0 and "_line_for_search" in traceback.format_exc():
            # Powell's method of scipy gives up when its direction vanishes
            ctx.count["powell failed"] += 1
            return
        ctx.fail("exception:fit", "fit raised %s: %s" % (type(err).__name__, err), names=names, kw=kw, traceback=traceback.format_exc()[-1500:])
    after = state(cam)
    bad = same_state(before, after, names)
    ctx.check(not bad, "fit-others", "a fit of %s changed %s" % (names, bad[:3]))
    got = np.asarray(result["x"], dtype=float)
    # headings are equal modulo a full turn
    ctx.check(all(after[n] == v or (n in TURNS and abs(ref.angle_diff(after[n], v)) < 1e-7) for n, v in zip(names, got)), "fit-state", "after the fit the camera has %s, the result is %s" % ([after[n] for n in names], got))
    final = cam.getLogProbability()
    ctx.check(final == -result["fun"] or abs(final + result["fun"]) <= 1e-6 * (1 + abs(final)), "fit-state", "the fit reports %s but the log probability is %s" % (-result["fun"], final))
    for n, (p, lo, hi) in zip(names, pars):
        turns = np.arange(-2, 3) * 360 if n in TURNS else np.array([0])
        ctx.check(np.any((lo - 1e-9 <= after[n] + turns) & (after[n] + turns <= hi + 1e-9)), "fit-bounds", "%s = %s is not in [%s, %s]" % (n, after[n], lo, hi), method=method)
    if method in (None, "Nelder-Mead"):
        ctx.check(final >= first - 1e-6 * (1 + abs(first)), "fit-better", "the log probability was %s at the start and %s after the fit" % (first, final), names=names, start=start, method=method)
    inside = all(lo < truth[n] < hi for n, (p, lo, hi) in zip(names, pars))
    # how much of the way to the best solution was made
    ctx.check(tried["n"] > 1, "fit-state", "the fit did not evaluate the log probability")
    ctx.count["fit evaluations"] += tried["n"]
    if inside and near and not limited and not tried["impossible"] and method in (None, "Nelder-Mead") and len(names) <= 2:
        gap = want_best - first
        ctx.check(want_best - final <= 0.02 * gap + 0.5 * len(feet) * (100 if mode != "height" else 0.2), "recover", "the fit of %s reached %s of %s (start %s)" % (names, final, want_best, first), truth=truth, found=got, start=start, spec=s, mode=mode, method=method)
    ctx.seen("fit", tuple(sorted(names)), method, mode, inside, limited)


def bounded(ctx):
    """ any number of parameters of a camera or a group, the optimum may be outside of the bounds """
    C = gen.ct()
    s = gen.spec(ctx, moderate=True)
    for k in ("heading", "yaw"):
        if k in s:
            s[k] = float(ctx.rng.uniform(-100, 100))
    if ctx.chance(0.6):
        cam = gen.make_camera(s)
    else:
        cam = C.CameraGroup(gen.make_projection(s), [gen.make_orientation(dict(s, x=s["x"] + 3 * i)) for i in range(int(ctx.rng.integers(2, 4)))], gen.make_lens(s))
    possible = ["elevation_m", "tilt_deg", "heading_deg", "roll_deg", "pos_x_m", "pos_y_m", "focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px"]
    names = [n for n in cam.parameters.parameters if (n.split("_", 1)[1] if n[0] == "C" else n) in possible]
    names = [str(n) for n in ctx.rng.permutation(names)[:int(ctx.rng.integers(1, 9))]]
    best = {n: float(getattr(cam, n)) for n in names}
    pars, want, start = [], {}, {}
    for n in names:
        width = float(ctx.rng.uniform(0.5, 4))
        lo = best[n] - width * float(ctx.rng.uniform(-0.3, 1))
        hi = lo + width
        v = float(ctx.rng.uniform(lo, hi))
        if ctx.chance(0.75):
            pars.append(C.FitParameter(n, lower=lo, upper=hi, value=v))
        else:
            lo, hi = -np.inf, np.inf
            pars.append(C.FitParameter(n, mean=v, std=1.0, value=v))
        want[n], start[n] = (min(max(best[n], lo), hi), lo, hi), v
    outside = []

    def term():
        for n in names:
            if not want[n][1] - 1e-7 <= getattr(cam, n) <= want[n][2] + 1e-7:
                outside.append(n)
        return -0.5 * sum((getattr(cam, n) - best[n]) ** 2 for n in names)
    cam.addCustomoLogProbability(term)
    before = state(cam)
    result = ctx.call("fit", cam.fit, pars)
    after = state(cam)
    bad = same_state(before, after, names)
    ctx.check(not bad, "fit-others", "a fit of %s changed %s" % (names, bad[:3]))
    for n in names:
        w, lo, hi = want[n]
        ctx.check(lo - 1e-9 <= after[n] <= hi + 1e-9, "fit-bounds", "%s = %s is not in [%s, %s]" % (n, after[n], lo, hi), names=names)
        ctx.check(abs(after[n] - w) < 1e-3, "recover", "the best %s in [%s, %s] is %s and not %s" % (n, lo, hi, w, after[n]), names=names)
    ctx.check(not [n for n in outside if np.isfinite(want[n][1])], "fit-bounds", "the fit tried %s outside of the bounds" % outside[:3])
    ctx.check(np.abs(np.asarray(result["x"], dtype=float) - [after[n] for n in names]).max() < 1e-9, "fit-state", "after the fit the camera has %s, the result is %s" % ([after[n] for n in names], result["x"]))
    ctx.seen("bounded", len(names), type(cam).__name__, sum(np.isinf(want[n][1]) for n in names))


def no_start(ctx):
    s, cam, feet, heads, space, h = scene(ctx)
    C = gen.ct()
    cam.addCustomoLogProbability(lambda: -np.inf)
    before = state(cam)
    try:
        cam.fit([C.FitParameter("elevation_m", lower=1, upper=20, value=5)])
    except ValueError:
        ctx.check(True, "no-start", "")
        return
    except Exception as err:
        ctx.fail("no-start", "an impossible fit raised %s" % err)
    ctx.fail("no-start", "an impossible fit did not raise an error")


def rare_start(ctx):
    """ only some percent of the prior are possible: a start is found, and the fit leads to the best possible position """
    s, cam, feet, heads, space, h = scene(ctx)
    C = gen.ct()
    best = {}
    part = float(ctx.pick([0.05, 0.1, 0.2]))
    names = ["elevation_m"] + (["pos_x_m"] if ctx.chance(0.4) else [])
    pars = []
    for n in names:
        best[n] = float(getattr(cam, n))
        part_n = part if len(names) == 1 else part ** 0.5
        width = 2.0 / part_n
        lo = best[n] - 1 - float(ctx.rng.uniform(0.1, 0.9)) * (width - 2)
        pars.append(C.FitParameter(n, lower=lo, upper=lo + width, value=lo if best[n] - lo > 1.01 else lo + width))
    possible = lambda: all(abs(getattr(cam, n) - v) < 1 for n, v in best.items())
    cam.addCustomoLogProbability(lambda: -0.5 * sum((getattr(cam, n) - v) ** 2 for n, v in best.items()) if possible() else -np.inf)
    before = state(cam)
    ctx.call("fit", cam.fit, pars, method="Nelder-Mead")
    bad = same_state(before, state(cam), names)
    ctx.check(not bad, "fit-others", "the fit changed %s" % bad[:3])
    ctx.check(possible() and cam.getLogProbability() > -1e-4, "rare-start", "the fit ended at %s, the best is %s" % ([getattr(cam, n) for n in names], best), part=part)
    ctx.seen("rare", part, len(names))


def bad_start(ctx):
    """ a start with zero probability is replaced by a draw from the prior """
    s, cam, feet, heads, space, h = scene(ctx)
    C = gen.ct()
    limit = s["elev"] * 0.5
    cam.addObjectHeightInformation(feet, heads, h, 0.05)
    cam.addCustomoLogProbability(lambda: 0.0 if cam.elevation_m > limit else -np.inf)
    before = state(cam)
    ctx.call("fit", cam.fit, [C.FitParameter("elevation_m", lower=0.1, upper=s["elev"] * 2, value=0.3 * limit)])
    ctx.check(np.isfinite(cam.getLogProbability()) and 0.1 <= cam.elevation_m <= s["elev"] * 2, "fit-bounds", "the fit ended at an elevation of %s with %s" % (cam.elevation_m, cam.getLogProbability()))
    bad = same_state(before, state(cam), ["elevation_m"])
    ctx.check(not bad, "fit-others", "the fit changed %s" % bad[:3])


def plots(ctx):
    import matplotlib.pyplot as plt
    s = gen.spec(ctx, moderate=True, small=True)
    cam = gen.make_camera(s)
    cam.setGPSpos(s["lat"], s["lon"], s["elev"])
    have = []
    for _ in range(int(ctx.rng.integers(1, 5))):
        t = add_term(ctx, cam, s, ctx.pick(["height", "length", "landmark", "gps", "horizon"]))
        if t is not None:
            have.append(t)
    before, p0 = state(cam), cam.getLogProbability()
    fig = plt.figure()
    try:
        image = ctx.pick([None, np.zeros((s["h"], s["w"]), dtype=np.uint8)])
        ctx.call("plotFitInformation", cam.plotFitInformation, *([] if image is None else [image]))
        shown = plt.gca()
        ctx.check(len(shown.collections) == len(have), "plot", "%d of %d kinds of information were plotted" % (len(shown.collections), len(have)))
        ctx.check(shown.get_xlim() == (0, s["w"]) and shown.get_ylim() == (s["h"], 0), "plot", "the limits are %s %s" % (shown.get_xlim(), shown.get_ylim()))
    finally:
        plt.close(fig)
    bad = same_state(before, state(cam))
    p1 = cam.getLogProbability()
    ctx.check(not bad and (p0 == p1 or p0 != p0), "plot", "plotting changed %s, log probability %s -> %s" % (bad[:3], p0, p1))
    for t in have:
        ctx.check(t.untouched(), "input", "the data given to %s was changed by plotting" % t.kind)
    ctx.seen("plot", tuple(t.kind for t in have)[:2])


SCENARIOS = dict(terms=(terms, 1000, 20000), group_terms=(group_terms, 120, 2500), group_sizes=(group_sizes, 150, 2500), fits=(fits, 420, 6000), bounded=(bounded, 250, 3000), no_start=(no_start, 30, 100), bad_start=(bad_start, 40, 400), rare_start=(rare_start, 60, 800), plots=(plots, 150, 2000))
