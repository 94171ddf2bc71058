"""C16 sampling and traces"""
import contextlib
import io

import numpy as np
from scipy import stats

from rtm import gen, ref
from rtm.core import Skip
from rtm.props.c15 import state, same_state

RULE = ("Metropolis chains on cameras and groups whose log probability is observed at every evaluation; offline checker over evaluations and trace (bounds, probabilities, acceptance rule, length, seeds), "
        "and histories of set_trace, set_to_mean, sample and changes; distinct = (parameters, bounds, burn-in, kind of posterior) and (operation, kind of trace)")
ASSUMPTIONS = ["the acceptance rule is judged for the iterations whose proposal can be identified in the sequence of evaluations", "acceptance frequencies and spreads are judged with 7 standard errors",
               "one row more or less at the end of the burn-in is not judged"]
# the walks are long, there are enough of them
QUICK = 1.5
REQUIRE = {"judged:bounds": 60, "judged:probability": 60, "judged:rows": 60, "judged:seed": 25, "judged:walk": 60, "judged:accept-better": 500, "judged:reject-impossible": 200, "judged:frequency": 25,
           "judged:best": 300, "judged:sample-row": 600, "judged:others": 600, "judged:normal": 60, "judged:consistent": 500, "judged:summary": 60, "judged:plot": 30, "judged:fitparameter": 200, "judged:posterior": 40, "judged:flat": 16, "judged:prior": 3000, "judged:noise": 150, "judged:fridge": 1000, "judged:trace-kept": 60, "chains:tuned": 25}
CHUNK = 12


def probe(cam):
    """ what the camera computes, to be compared with a fresh camera of the same parameters """
    p = np.array([[10.0, 5.0], [cam.image_width_px / 3, cam.image_height_px / 2], [cam.image_width_px, cam.image_height_px]])
    x = np.array([[3.0, 40.0, 0.0], [-10.0, 25.0, 1.0], [cam.pos_x_m + 1, cam.pos_y_m + 2, 0.5]])
    return np.concatenate([np.asarray(cam.getRay(p, normed=True)[1]).ravel(), np.asarray(cam.imageFromSpace(x, hide_backpoints=False)).ravel()])


def consistent(ctx, cam, what):
    got, want = probe(cam), probe(gen.make_camera(gen.spec_of(cam)))
    ctx.check(np.allclose(got, want, rtol=1e-9, atol=1e-7, equal_nan=True), "consistent", "after %s the camera does not compute with its current parameters" % what, got=got, want=want, spec=gen.spec_of(cam))


NAMES = ["elevation_m", "tilt_deg", "heading_deg", "roll_deg", "pos_x_m", "pos_y_m", "focallength_x_px", "center_x_px", "k1", "a", "yaw_deg", "pitch_deg", "gps_lat"]
SCALE = dict(elevation_m=1.0, tilt_deg=2.0, heading_deg=5.0, roll_deg=1.0, pos_x_m=3.0, pos_y_m=3.0, focallength_x_px=10.0, center_x_px=5.0, k1=0.01, a=0.01, yaw_deg=5.0, pitch_deg=2.0, gps_lat=1e-3)


def base(n):
    return n.split("_", 1)[1] if n[0] == "C" and n[1:2].isdigit() else n


def subject(ctx):
    """ a camera or a group, and the cameras in it """
    s = gen.spec(ctx, moderate=True)
    if abs(s.get("heading", 0)) > 300:
        s["heading"] = 10.0
    if abs(s.get("yaw", 0)) > 300:
        s["yaw"] = 10.0
    if ctx.chance(0.75):
        cam = gen.make_camera(s)
        return cam, [cam], "camera"
    s2 = dict(s, x=s["x"] + 2)
    g = gen.ct().CameraGroup(gen.make_projection(s), [gen.make_orientation(s), gen.make_orientation(s2)], gen.make_lens(s))
    return g, list(g), "group"


def tuning(ctx):
    """ a long burn-in with steps which are far too large or small """
    chains(ctx, True)


def chains(ctx, long=False):
    cam, cams, kind = subject(ctx)
    C = gen.ct()
    names = [n for n in cam.parameters.parameters if base(n) in NAMES]
    names = [str(n) for n in ctx.rng.permutation(names)[:int(ctx.rng.integers(1, 4))]]
    centre = {n: float(getattr(cam, n)) for n in names}
    sigma = {n: SCALE[base(n)] for n in names}
    extra = None
    log = []
    wall = ctx.chance(0.4)
    if ctx.chance(0.3):
        v = float(ctx.rng.uniform(0.5, 2))
        extra = C.FitParameter("sigma_%d" % ctx.rng.integers(100), lower=0.1, upper=5, value=v, step=0.3)

    def logprob():
        values = [float(getattr(cam, n)) for n in names]
        k = float(extra.value) if extra is not None else 1.0
        p = 0.0
        for n, v in zip(names, values):
            p += -0.5 * ((v - centre[n]) / sigma[n] / k) ** 2 - np.log(k)
        if wall and (values[0] - centre[names[0]]) / sigma[names[0]] > 0.7:
            p = -np.inf
        log.append((values + ([k] if extra is not None else []), p))
        return p
    cam.addCustomoLogProbability(logprob, *([[extra]] if extra is not None else []))
    pars, bounds = [], []
    wide = ctx.pick([1e-3, 0.02, 0.3, 5, 50, 500, 5000])
    for n in names:
        u = ctx.rng.random()
        v = centre[n] + sigma[n] * float(ctx.rng.uniform(-0.5, 0.5))
        step = sigma[n] * float(ctx.pick([0.5, 1, 2, 2]) if not long else wide)
        if u < 0.3 or base(n) in ("heading_deg", "yaw_deg", "pitch_deg"):
            # (the camera takes angles of more than a full turn modulo 360)
            lo, hi = centre[n] - sigma[n] * float(ctx.rng.uniform(0.5, 1)), centre[n] + sigma[n] * float(ctx.rng.uniform(0.5, 1))
        elif u < 0.5:
            lo, hi = centre[n] - 1000 * sigma[n], centre[n] + 1000 * sigma[n]
        else:
            lo, hi = -np.inf, np.inf
        if np.isinf(lo):
            pars.append(C.FitParameter(n, mean=centre[n], std=sigma[n], value=v, step=step))
        else:
            pars.append(C.FitParameter(n, lower=lo, upper=hi, value=v, step=step))
        bounds.append((lo, hi))
    if extra is not None:
        bounds.append((0.1, 5))
    start_wrong = wall and ctx.chance(0.3) and bounds[0][1] - centre[names[0]] > 0.9 * sigma[names[0]]
    if start_wrong:
        pars[0].set_value(centre[names[0]] + 0.85 * sigma[names[0]])
    iterations = int(ctx.pick([40, 150, 320, 320, 450]))
    burn = ctx.pick([None, 0, 0.1, 0.25, 0.5, 1, 20, 120])
    if burn is not None and burn >= iterations - 5:
        burn = 0.5
    if long:
        iterations, burn = int(ctx.pick([700, 900])), ctx.pick([420, 350, 0.6])
    kw = dict(iterations=iterations if ctx.chance(0.5) else float(iterations), disable_bar=True)
    if burn is not None:
        kw["burn"] = burn
    if ctx.chance(0.7):
        kw["print_trace"] = False
    if ctx.chance(0.3):
        kw["step"] = 0.5
    before = state(cam)
    seed = int(ctx.rng.integers(2 ** 31))
    start_extra = float(extra.value) if extra is not None else None
    np.random.seed(seed)
    trace = ctx.call("metropolis", cam.metropolis, list(pars), **kw)
    evaluated = list(log)
    columns = names + ([str(extra)] if extra is not None else []) + ["probability"]
    ctx.check(list(trace.columns) == columns, "rows", "the columns of the trace are %s and not %s" % (list(trace.columns), columns))
    b = 0.1 if burn is None else burn
    b = int(iterations * b) if b < 1 else int(b)
    ctx.check(len(trace) in (iterations - b - 1, iterations - b), "rows", "%d iterations with a burn-in of %s gave %d rows" % (iterations, burn, len(trace)))
    values = trace[columns[:-1]].to_numpy(dtype=float)
    prob = trace["probability"].to_numpy(dtype=float)
    # the bounds, in the trace and in every position that was tried
    for j, (lo, hi) in enumerate(bounds):
        ctx.check(np.all((values[:, j] >= lo) & (values[:, j] <= hi)), "bounds", "%s leaves [%s, %s]: %s .. %s" % (columns[j], lo, hi, values[:, j].min(), values[:, j].max()))
        tried = np.array([e[0][j] for e in evaluated])
        ctx.check(np.all((tried >= lo - 1e-12 * abs(lo)) & (tried <= hi + 1e-12 * abs(hi))), "bounds", "%s was tried outside of [%s, %s]" % (columns[j], lo, hi))
    # every row is a position which was evaluated, with its log probability, in this order
    pos = 0
    rows_of = {}
    for i, (v, p) in enumerate(evaluated):
        rows_of.setdefault(tuple(v), []).append(i)
    last = None
    for v, p in zip(values, prob):
        where = rows_of.get(tuple(v))
        ctx.check(where is not None, "walk", "a row of the trace is a position which was never evaluated", row=v, columns=columns)
        ctx.check(any(evaluated[i][1] == p or abs(evaluated[i][1] - p) <= 1e-9 * (1 + abs(p)) for i in where), "probability", "a row of the trace has the probability %s, its log probability is %s" % (p, evaluated[where[0]][1]), row=v)
        if last is not None and tuple(v) != last:
            ctx.check(where[-1] > pos, "walk", "the trace goes back to an earlier position")
            pos = where[-1]
        elif last is None:
            pos = where[-1]
        last = tuple(v)
    if not start_wrong:
        ctx.check(np.isfinite(prob).all(), "probability", "the trace contains impossible positions")
    # the acceptance rule
    n = len(values)
    proposals = evaluated[len(evaluated) - n:]
    aligned = n > 1 and all(tuple(values[k]) == tuple(values[k - 1]) or tuple(values[k]) == tuple(proposals[k][0]) for k in range(1, n))
    if aligned:
        num = var = 0.0
        free = all(np.isinf(lo) or hi - lo > 500 * s for (lo, hi), s in zip(bounds, [sigma[q] for q in names] + [100])) and extra is None
        # the scale of the steps is only changed during the burn-in, after 100 iterations
        scale = kw.get("step", 1) * np.array([p.step for p in pars + ([extra] if extra is not None else [])], dtype=float) if b <= 100 else None
        limits = np.array(bounds, dtype=float)
        for k in range(1, n):
            ratio = proposals[k][1] - prob[k - 1]
            new, old = np.array(proposals[k][0]), values[k - 1]
            accepted = tuple(values[k]) == tuple(proposals[k][0])
            if np.isinf(proposals[k][1]) and np.isinf(prob[k - 1]):
                continue
            # steps are cut off at the bounds, which has to be compensated
            if scale is not None:
                ratio += ref.log_mass(old, scale, limits) - ref.log_mass(new, scale, limits)
                judged = abs(ratio) > 1e-9
            else:
                middle = np.where(np.isinf(limits).any(1), 0, limits.sum(1) / 2)
                judged = ratio < 0 or np.all(np.isinf(limits).all(1) | (np.abs(new - middle) >= np.abs(old - middle)))
            if ratio >= 0:
                if judged:
                    ctx.check(accepted, "accept-better", "a better position was not accepted (%s -> %s)" % (prob[k - 1], proposals[k][1]), bounds=bounds, old=old, new=new)
            elif ratio < -60:
                ctx.check(not accepted, "reject-impossible", "an impossible position was accepted (%s -> %s)" % (prob[k - 1], proposals[k][1]))
            elif free or scale is not None:
                q = np.exp(ratio)
                num += accepted - q
                var += q * (1 - q)
        if var > 5:
            ctx.check(abs(num) <= 7 * np.sqrt(var), "frequency", "%.1f standard errors too many positions were accepted" % (num / np.sqrt(var)))
        if free and len(names) > 1 and n > 100:
            # each parameter walks with its own step
            st = np.array([p.step for p in pars], dtype=float)
            d = (np.array([proposals[k][0] for k in range(1, n)]) - values[:-1]) / st
            sd = d.std(0)
            ctx.check(sd.max() / sd.min() < 1 + 7 * np.sqrt(1.0 / n), "frequency", "the steps of the parameters do not have the ratio that was asked for: %s" % sd)
        ctx.seen("walk", kind, len(names), wall, free)
    else:
        ctx.count["walk not aligned"] += 1
    # the camera is left at the most probable row
    ctx.check(cam.parameters.trace is trace or cam.parameters.trace.equals(trace), "best", "the camera does not have the trace")
    best = values[int(np.argmax(prob))]
    after = state(cam)
    for j, nme in enumerate(names):
        ctx.check(after[nme] == best[j], "best", "after the sampling %s is %s, the most probable value is %s" % (nme, after[nme], best[j]))
    bad = same_state(before, after, names)
    ctx.check(not bad, "others", "sampling %s changed %s" % (names, bad[:3]))
    for c in cams:
        consistent(ctx, c, "sampling")
    use_trace(ctx, cam, cams, trace, names)
    # the same seed gives the same trace
    if ctx.chance(0.5):
        if extra is not None:
            extra.set_value(start_extra)
        np.random.seed(seed)
        again = ctx.call("metropolis", cam.metropolis, list(pars), **kw)
        ctx.check(list(again.columns) == columns and np.array_equal(again.to_numpy(dtype=float), trace.to_numpy(dtype=float)), "seed", "the same seed gave another trace")
        ctx.seen("seed", kind)
    ctx.seen("chain", tuple(sorted({base(n) for n in names})), str(burn), wall, extra is not None)
    ctx.count["chains:tuned"] += long
    ctx.sample(names=names, iterations=iterations, rows=len(trace), accepted=len(set(map(tuple, values))))


def posterior(ctx):
    """ a long chain has the distribution of the posterior, also next to its bounds """
    C = gen.ct()
    cam, cams, kind = subject(ctx)
    wanted = ctx.pick(["roll_deg", "pos_x_m", "center_x_px"])
    name = [q for q in cam.parameters.parameters if base(q) == wanted][0]
    shape = ctx.pick(["uniform", "half", "normal", "exponential"])
    mid, width = float(ctx.rng.normal() * 3), float(ctx.rng.uniform(0.5, 3))
    a, c = mid, mid + width
    step = width * float(ctx.pick([0.3, 1, 3]))
    if shape == "uniform":
        dist = stats.uniform(a, width)
    elif shape == "half":
        dist, c = stats.halfnorm(a, width), ctx.pick([a + 1000 * width, a + 20 * width])
    elif shape == "normal":
        dist, a, c = stats.truncnorm(-1, 0.7, mid, width), mid - width, mid + 0.7 * width
    else:
        dist, c = stats.expon(a, width), a + 60 * width
    cam.addCustomoLogProbability(lambda: float(dist.logpdf(getattr(cam, name))))
    n = 9000
    np.random.seed(int(ctx.rng.integers(2 ** 31)))
    burn = int(ctx.pick([0, 50, 2500]))
    trace = ctx.call("metropolis", cam.metropolis, [C.FitParameter(name, lower=a, upper=c, value=dist.ppf(0.4), step=step)], iterations=n + burn, burn=burn, disable_bar=True, print_trace=False)
    u = dist.cdf(trace[name].to_numpy(dtype=float))
    # mean and variance of the uniform distribution, standard errors from the means of 30 parts
    for what, x, want in [("mean", u, 0.5), ("square", u ** 2, 1 / 3), ("edge", u < 0.1, 0.1), ("end", u > 0.9, 0.1)]:
        parts = np.array([q.mean() for q in np.array_split(x.astype(float), 30)])
        error = max(parts.std(ddof=1) / np.sqrt(30), 1e-4)
        ctx.check(abs(parts.mean() - want) < 6.5 * error, "posterior", "the %s of %d samples of a %s distribution between %s and %s is %.4f and not %.4f (%.1f standard errors)" % (what, len(u), shape, a, c, parts.mean(), want, (parts.mean() - want) / error),
                  step=step, burn=burn)
    ctx.seen("posterior", shape, burn, step / width)


def flat(ctx):
    """ every position is equally probable: the steps grow during the burn-in, the chain must not stand still """
    from cameratransform.statistic import metropolis
    n = int(ctx.rng.integers(1, 3))
    lo = ctx.rng.normal(size=n) * 10
    width = 10.0 ** ctx.rng.uniform(-2, 2, n)
    seen = []

    def logprob(p):
        seen.append(np.array(p, dtype=float))
        return 0.0
    burn = int(ctx.pick([500, 1500, 2300]))
    np.random.seed(int(ctx.rng.integers(2 ** 31)))
    t = np.array(ctx.call("metropolis", metropolis, logprob, list(lo + width / 2), step=width * float(ctx.pick([0.1, 1, 10])), iterations=burn + 300, burn=burn, disable_bar=True, ranges=np.c_[lo, lo + width]))
    x = (t[:, :n] - lo) / width
    ctx.check(np.all((x >= -1e-9) & (x <= 1 + 1e-9)), "bounds", "a flat posterior left its bounds")
    for j in range(n):
        ctx.check(len(np.unique(x[:, j])) > 100 and x[:, j].min() < 0.2 and x[:, j].max() > 0.8, "flat", "300 samples of a flat posterior have %d values in %.3f..%.3f of their bounds" % (len(np.unique(x[:, j])), x[:, j].min(), x[:, j].max()), burn=burn)
    ctx.seen("flat", n, burn)


def prior(ctx):
    """ a chain which draws further parameters from the trace of another one """
    import pandas as pd
    from cameratransform.statistic import metropolis
    m = int(ctx.pick([1, 2, 3, 8, 40]))
    cols = ["a", "b"][:int(ctx.rng.integers(1, 3))]
    other = pd.DataFrame({c: ctx.rng.normal(size=m) for c in cols})
    other["probability"] = -ctx.rng.exponential(size=m)
    if ctx.chance(0.5):
        other.index = ctx.rng.permutation(m) + ctx.pick([0, 5]) if ctx.chance(0.5) else ["r%d" % i for i in range(m)]
    keep = other.copy()
    n = int(ctx.rng.integers(1, 3))
    table = {}

    def logprob(p):
        p = np.array(p, dtype=float)
        ctx.check(len(p) == n + len(cols), "prior", "%d values were evaluated and not %d" % (len(p), n + len(cols)))
        v = -0.5 * float(np.sum((p[:n] - np.resize(p[n:], n)) ** 2)) - 0.3 * float(np.sum(p[n:] ** 2))
        table[tuple(p)] = v
        return v
    iterations, burn = int(ctx.pick([150, 400])), ctx.pick([0, 20, 0.2])
    np.random.seed(int(ctx.rng.integers(2 ** 31)))
    t = np.array(ctx.call("metropolis", metropolis, logprob, list(ctx.rng.normal(size=n)), step=[0.8] * n, iterations=iterations, burn=burn, disable_bar=True, prior_trace=other))
    rows = {tuple(r) for r in other[cols].to_numpy()}
    drawn = {tuple(q[n:]) for q in table}
    ctx.check(drawn <= rows, "prior", "values were drawn which are not in the given trace")
    if m <= 8:
        ctx.check(drawn == rows, "prior", "only %d of the %d rows of the given trace were drawn in %d iterations" % (len(drawn), m, iterations))
    for r in t:
        ctx.check(tuple(r[:-1]) in table, "prior", "a row of the trace was never evaluated", row=r)
        ctx.check(abs(table[tuple(r[:-1])] - r[-1]) <= 1e-9 * (1 + abs(r[-1])), "prior", "a row of the trace has the probability %s, it was %s" % (r[-1], table[tuple(r[:-1])]), row=r)
    ctx.check(other.equals(keep), "trace-kept", "the given trace was changed")
    ctx.seen("prior", m, n, len(cols))


def noise(ctx):
    """ x + normal(sigma), x + normal_bounded(sigma, min, max) """
    from cameratransform.statistic import normal, normal_bounded
    s = float(10 ** ctx.rng.uniform(-2, 2))
    n = 600
    x = float(ctx.rng.normal() * 10)
    bounded = ctx.chance(0.6)
    kind = ctx.pick(["scalar", "array", "grid", "left"])
    if bounded:
        lo = x + s * float(ctx.rng.uniform(-2, 0.5))
        hi = lo + s * float(ctx.rng.uniform(0.5, 3))
        d, dist = normal_bounded(s, lo, hi), stats.truncnorm((lo - x) / s, (hi - x) / s, x, s)
    else:
        d, dist = normal(s), stats.norm(x, s)
    np.random.seed(int(ctx.rng.integers(2 ** 31)))
    if kind == "scalar":
        got = np.array([float(x + d) for _ in range(n)])
    elif kind == "left":
        got = np.array([float(d + x) for _ in range(n)])
    else:
        v = np.full((n,) if kind == "array" else (n // 20, 20), x)
        got = np.asarray(v + d if ctx.chance(0.5) else d + v)
        ctx.check(got.shape == v.shape and np.all(v == x), "noise", "noise for values of the shape %s has the shape %s" % (v.shape, got.shape))
        got = got.ravel()
    if bounded:
        ctx.check(np.all((got >= lo - 1e-9 * s) & (got <= hi + 1e-9 * s)), "noise", "bounded noise leaves [%s, %s]: %s..%s" % (lo, hi, got.min(), got.max()))
    ctx.check(len(np.unique(got)) > n // 2, "noise", "%d draws have only %d values" % (n, len(np.unique(got))))
    D = stats.kstest(got, dist.cdf).statistic
    ctx.check(D * np.sqrt(n) < 3.2, "noise", "noise around %s with sigma %s does not have its distribution (Kolmogorov-Smirnov %.3f)" % (x, s, D), bounded=bounded)
    ctx.seen("noise", kind, bounded)


def fridge(ctx):
    """ the other sampler: a stand-in for the package which it needs draws from the priors and asks for the probabilities """
    import sys
    import types
    import unittest.mock
    C = gen.ct()
    cam, cams, kind = subject(ctx)
    names = [q for q in cam.parameters.parameters if base(q) in ("elevation_m", "roll_deg", "pos_x_m", "center_x_px", "tilt_deg")]
    names = [str(n) for n in ctx.rng.permutation(names)[:int(ctx.rng.integers(1, 4))]]
    centre = {n: float(getattr(cam, n)) for n in names}
    pars = [C.FitParameter(n, lower=v - 1, upper=v + 1, value=v + 0.5) if ctx.chance(0.5) else C.FitParameter(n, mean=v, std=0.3, value=v) for n, v in centre.items()]
    extra = C.FitParameter("width", lower=0.5, upper=2, value=1.0) if ctx.chance(0.4) else None

    def truth(values):
        k = values[len(names)] if extra is not None else 1.0
        return float(-0.5 * sum((v - centre[n]) ** 2 for n, v in zip(names, values)) / k ** 2 - np.log(k))
    cam.addCustomoLogProbability(lambda: truth([float(getattr(cam, n)) for n in names] + ([float(extra.value)] if extra is not None else [])), *([[extra]] if extra is not None else []))
    count = int(ctx.pick([3, 20, 60]))
    asked = []

    def sample(model, draws, **kwargs):
        ctx.check(draws == count, "fridge", "%s draws were asked for and not %s" % (draws, count))
        out = {v.__name__: [] for v in model.variables}
        for i in range(draws):
            model.draw_from_prior()
            values = [float(v.value) for v in model.variables]
            asked.append((values, float(model.logp)))
            for v, x in zip(model.variables, values):
                out[v.__name__].append(x)
        return {k: np.array(v) for k, v in out.items()}, 0.0
    before = state(cam)
    modules = dict(bayesianfridge=types.SimpleNamespace(sample=sample), mock=unittest.mock)
    saved = {k: sys.modules.get(k) for k in list(modules) + ["pymc", "pymc.ZeroProbability"]}
    sys.modules.update(modules)
    np.random.seed(int(ctx.rng.integers(2 ** 31)))
    try:
        trace = ctx.call("fridge", cam.fridge, pars, iterations=count)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    for values, p in asked:
        ctx.check(abs(p - truth(values)) <= 1e-9 * (1 + abs(p)), "fridge", "the sampler was told the log probability %s of %s, it is %s" % (p, values, truth(values)), names=names)
    columns = names + (["width"] if extra is not None else []) + ["probability"]
    ctx.check(list(trace.columns) == columns and len(trace) == count, "fridge", "the trace has %d rows of %s" % (len(trace), list(trace.columns)))
    for row, (values, p) in zip(trace.to_numpy(dtype=float), asked):
        ctx.check(list(row[:-1]) == values and abs(row[-1] - truth(values)) <= 1e-9 * (1 + abs(p)), "fridge", "a row of the trace has the log probability %s, it is %s" % (row[-1], truth(values)), row=row)
    best = trace.to_numpy(dtype=float)[int(np.argmax(trace["probability"].to_numpy(dtype=float)))]
    for n, v in zip(names, best):
        ctx.check(float(getattr(cam, n)) == v, "best", "after the sampling %s is %s and not %s" % (n, getattr(cam, n), v))
    bad = same_state(before, state(cam), names)
    ctx.check(not bad, "others", "sampling %s changed %s" % (names, bad[:3]))
    for c in cams:
        consistent(ctx, c, "sampling")
    use_trace(ctx, cam, cams, trace, names)
    ctx.seen("fridge", kind, len(names), extra is not None)


def use_trace(ctx, cam, cams, trace, names):
    """ draws and means of the trace that the camera has """
    copy = trace.copy()
    rows = trace[names].to_numpy(dtype=float)
    prob = trace["probability"].to_numpy(dtype=float)
    for _ in range(int(ctx.rng.integers(2, 8))):
        before = state(cam)
        u = ctx.rng.random()
        if u < 0.6:
            p = ctx.call("sample", cam.sample)
            got = np.array([float(getattr(cam, n)) for n in names])
            where = np.flatnonzero((rows == got).all(1))
            ctx.check(len(where) > 0, "sample-row", "the sample %s is no row of the trace" % got, names=names)
            ctx.check(np.any(prob[where] == p), "sample-row", "the sample has the probability %s but %s was returned" % (prob[where], p))
            what = "sample"
        elif u < 0.85:
            ctx.call("set_to_mean", cam.set_to_mean)
            got = np.array([float(getattr(cam, n)) for n in names])
            where = np.flatnonzero((rows == got).all(1))
            ctx.check(len(where) > 0 and np.nanmax(prob[where]) == np.nanmax(prob), "best", "set_to_mean gave %s, the most probable row is %s" % (got, rows[np.nanargmax(prob)]))
            what = "set_to_mean"
        else:
            n = ctx.pick(names)
            setattr(cam, n, float(getattr(cam, n)) + 0.01)
            continue
        bad = same_state(before, state(cam), names)
        ctx.check(not bad, "others", "%s changed %s" % (what, bad[:3]))
        for c in cams:
            consistent(ctx, c, what)
    ctx.check(trace.equals(copy), "trace-kept", "the trace was changed")


def traces(ctx):
    """ traces from elsewhere: filtered, concatenated, loaded """
    import pandas as pd
    cam, cams, kind = subject(ctx)
    names = [n for n in cam.parameters.parameters if base(n) in NAMES]
    names = [str(n) for n in ctx.rng.permutation(names)[:int(ctx.rng.integers(1, 5))]]
    n = int(ctx.pick([1, 2, 3, 10, 100, 500]))
    data = {q: float(getattr(cam, q)) + SCALE[base(q)] * ctx.rng.normal(size=n) for q in names}
    if ctx.chance(0.2):
        data["something_else"] = ctx.rng.normal(size=n)
    data["probability"] = -ctx.rng.exponential(size=n) * 10 - ctx.pick([0, 1e5])
    if ctx.chance(0.1):
        data["probability"][ctx.rng.integers(n)] = -np.inf
    trace = pd.DataFrame(data)
    form = ctx.pick(["plain", "plain", "filtered", "concatenated", "shuffled", "named", "loaded", "reversed"])
    if form == "filtered" and n > 3:
        trace = trace[n // 3:][::2]
    elif form == "concatenated":
        trace = pd.concat([trace, trace * 1.001])
    elif form == "shuffled":
        trace = trace.iloc[ctx.rng.permutation(n)]
    elif form == "named":
        trace.index = ["row%d" % i for i in range(n)]
    elif form == "loaded":
        f = ctx.tmp("trace.csv")
        trace.to_csv(f)
        trace = pd.read_csv(f, index_col=0)
    elif form == "reversed":
        trace = trace[trace.columns[::-1]]
    ctx.call("set_trace", cam.set_trace, trace)
    use_trace(ctx, cam, cams, trace, names)
    ctx.seen("trace", form, n, kind)
    # every row is drawn
    if 2 <= len(trace) <= 10 and ctx.chance(0.3):
        seen = set()
        for _ in range(400):
            cam.sample()
            seen.add(tuple(float(getattr(cam, q)) for q in names))
        ctx.check(len(seen) == len({tuple(r) for r in trace[names].to_numpy(dtype=float)}), "sample-row", "only %d of %d rows were drawn" % (len(seen), len(trace)))
    # without a trace nothing is drawn
    if ctx.chance(0.3):
        cam.set_trace(None)
        before = state(cam)
        cam.sample()
        cam.set_to_mean()
        bad = same_state(before, state(cam))
        ctx.check(not bad, "others", "sampling without a trace changed %s" % bad[:3])
    elif form not in ("concatenated", "reversed"):
        summary(ctx, cam, trace)


def summary(ctx, cam, trace):
    import matplotlib.pyplot as plt
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx.call("printTraceSummary", cam.printTraceSummary)
    lines = out.getvalue().strip().split("\n")
    cols = [c for c in trace.columns if c != "probability"]
    ctx.check(len(lines) == len(cols) + 1 and str(len(trace)) in lines[0], "summary", "the summary of %d parameters and %d rows is %s" % (len(cols), len(trace), lines))
    for c, line in zip(cols, lines[1:]):
        name, rest = line.rsplit(" ", 1)
        m, sd = [float(v) for v in rest.split("±")]
        x = trace[c].to_numpy(dtype=float)
        std = x.std()
        ctx.check(name == c and abs(m - x.mean()) <= std + 1e-9 * abs(m) and abs(sd - std) <= 0.06 * std + 1e-12, "summary", "the summary of %s (%s ± %s) is %s" % (c, x.mean(), std, line))
    if len(trace) > 2 and ctx.chance(0.3):
        fig = plt.figure()
        try:
            kw = ctx.pick([{}, dict(just_distributions=True), dict(skip=2), dict(N=1), dict(show_mean_median=False)])
            ctx.call("plotTrace", cam.plotTrace, **kw)
            axes = fig.axes
            want = min(len(cols), kw.get("N", len(cols))) * (1 if "just_distributions" in kw else 2)
            ctx.check(len(axes) == want, "plot", "plotTrace made %d axes and not %d" % (len(axes), want))
            if "just_distributions" not in kw:
                for c, ax in zip(cols, axes[1::2]):
                    y = np.asarray(ax.lines[0].get_ydata(), dtype=float)
                    ctx.check(np.array_equal(y, trace[c].to_numpy(dtype=float)[::kw.get("skip", 1)]), "plot", "the plotted trace of %s is not the trace" % c)
        finally:
            plt.close(fig)


def normals(ctx):
    """ parameters with an uncertainty: cam.elevation_m = (mean, std) """
    cam, cams, kind = subject(ctx)
    names = [n for n in cam.parameters.parameters if base(n) in NAMES]
    names = [str(n) for n in ctx.rng.permutation(names)[:int(ctx.rng.integers(1, 4))]]
    mean, std = {}, {}
    for n in names:
        mean[n], std[n] = float(getattr(cam, n)), SCALE[base(n)] * 0.3
        setattr(cam, n, (mean[n], std[n]))
        ctx.check(float(getattr(cam, n)) == mean[n], "normal", "%s = (%s, %s) gave the value %s" % (n, mean[n], std[n], getattr(cam, n)))
    for c in cams:
        consistent(ctx, c, "setting uncertain values")
    before = state(cam)
    draws = []
    seed = int(ctx.rng.integers(2 ** 31))
    np.random.seed(seed)
    for _ in range(60):
        cam.sample()
        draws.append([float(getattr(cam, n)) for n in names])
    bad = same_state(before, state(cam), names)
    ctx.check(not bad, "others", "sampling %s changed %s" % (names, bad[:3]))
    for c in cams:
        consistent(ctx, c, "sample")
    np.random.seed(seed)
    cam.sample()
    ctx.check([float(getattr(cam, n)) for n in names] == draws[0], "seed", "the same seed gave another sample")
    z = (np.array(draws) - [mean[n] for n in names]) / [std[n] for n in names]
    ctx.check(np.all(np.abs(z.mean(0)) < 7 / np.sqrt(60)) and np.all(np.abs(z.std(0) - 1) < 7 / np.sqrt(120)), "normal", "samples of %s have the mean %s and spread %s (in units of the uncertainty)" % (names, z.mean(0), z.std(0)))
    if len(names) > 1:
        r = np.corrcoef(z.T)[0, 1]
        ctx.check(abs(r) < 0.85, "normal", "the samples of %s are correlated by %s" % (names, r))
    cam.set_to_mean()
    for n in names:
        ctx.check(float(getattr(cam, n)) == mean[n], "normal", "set_to_mean gave %s = %s and not %s" % (n, getattr(cam, n), mean[n]))
    for c in cams:
        consistent(ctx, c, "set_to_mean")
    # a plain value ends the uncertainty
    n = ctx.pick(names)
    v = mean[n] + SCALE[base(n)]
    setattr(cam, n, v)
    cam.sample()
    ctx.check(float(getattr(cam, n)) == v, "normal", "%s was set to %s without uncertainty but sampled as %s" % (n, v, getattr(cam, n)))
    ctx.seen("normal", tuple(sorted(base(q) for q in names)), kind)


def fit_parameters(ctx):
    C = gen.ct()
    lo = float(ctx.rng.normal() * 10)
    hi = lo + float(ctx.rng.exponential() * 10 + 0.1)
    v = float(ctx.rng.uniform(lo, hi))
    p = ctx.call("FitParameter", C.FitParameter, "name", lower=lo, upper=hi, value=v)
    draws = np.array([float(p.random()) for _ in range(30)])
    ctx.check(np.all((draws >= lo) & (draws <= hi)), "fitparameter", "draws leave [%s, %s]" % (lo, hi))
    ctx.check(draws.max() - draws.min() > 0.4 * (hi - lo), "fitparameter", "draws do not fill [%s, %s]: %s..%s" % (lo, hi, draws.min(), draws.max()))
    ctx.check(float(p.value) == v and str(p) == "name" and abs(float(p.logp()) + np.log(hi - lo)) < 1e-9, "fitparameter", "a uniform parameter has value %s, name %s, logp %s" % (p.value, p, p.logp()))
    p.set_value(hi + 1)
    ctx.check(float(p.value) == hi + 1 and p.logp() == -np.inf, "fitparameter", "outside of its bounds the parameter has the logp %s" % p.logp())
    m, sd = lo, hi - lo
    p = C.FitParameter("n", mean=m, std=sd, value=v)
    ctx.check(abs(float(p.logp()) - stats.norm(m, sd).logpdf(v)) < 1e-9, "fitparameter", "a normal parameter has the logp %s" % p.logp())
    draws = np.array([float(p.random()) for _ in range(50)])
    ctx.check(abs(draws.mean() - m) < 7 * sd / np.sqrt(50) and 0.3 < draws.std() / sd < 1.7, "fitparameter", "draws of N(%s, %s) have %s ± %s" % (m, sd, draws.mean(), draws.std()))
    try:
        C.FitParameter("x", value=1, **ctx.pick([{}, dict(lower=1), dict(upper=1), dict(mean=1), dict(std=1)]))
        ctx.fail("fitparameter", "a parameter without distribution was accepted")
    except ValueError:
        pass
    ctx.seen("fitparameter")


def no_start(ctx):
    cam, cams, kind = subject(ctx)
    n = [q for q in cam.parameters.parameters if base(q) == "elevation_m"][0]
    C = gen.ct()
    cam.addCustomoLogProbability(lambda: ctx.pick([-np.inf, np.nan]))
    try:
        cam.metropolis([C.FitParameter(n, lower=1, upper=20, value=5)], iterations=20, disable_bar=True)
    except ValueError:
        ctx.count["judged:no-start"] += 1
        return
    except Exception as err:
        ctx.fail("no-start", "sampling an impossible posterior raised %r" % err)
    ctx.fail("no-start", "an impossible posterior was sampled")


def rare_start(ctx):
    """ only some percent of the prior are possible: the sampling finds a start and never records an impossible position """
    cam, cams, kind = subject(ctx)
    C = gen.ct()
    names = [q for q in cam.parameters.parameters if base(q) in ("elevation_m", "roll_deg")]
    names = [str(n) for n in ctx.rng.permutation(names)[:int(ctx.rng.integers(1, 3))]]
    best, pars, bounds = {}, [], []
    part = float(ctx.pick([0.05, 0.1, 0.2])) ** (1 / len(names))
    for n in names:
        best[n] = float(getattr(cam, n))
        lo = best[n] - 1 - float(ctx.rng.uniform(0.1, 0.9)) * (2 / part - 2)
        pars.append(C.FitParameter(n, lower=lo, upper=lo + 2 / part, value=lo if best[n] - lo > 1.01 else lo + 2 / part, step=0.5))
        bounds.append((lo, lo + 2 / part))
    cam.addCustomoLogProbability(lambda: 0.0 if all(abs(getattr(cam, n) - v) < 1 for n, v in best.items()) else -np.inf)
    np.random.seed(int(ctx.rng.integers(2 ** 31)))
    trace = ctx.call("metropolis", cam.metropolis, pars, iterations=60, disable_bar=True, print_trace=False)
    ctx.check(np.isfinite(trace["probability"].to_numpy(dtype=float)).all(), "rare-start", "the sampling did not find a possible start", part=part)
    for n, v in best.items():
        ctx.check((np.abs(trace[n].to_numpy(dtype=float) - v) < 1).all(), "rare-start", "an impossible %s was recorded" % n)
    ctx.seen("rare", kind, part, len(names))


SCENARIOS = dict(tuning=(tuning, 40, 800), chains=(chains, 110, 4000), traces=(traces, 350, 8000), normals=(normals, 120, 3000), fit_parameters=(fit_parameters, 80, 1000), no_start=(no_start, 10, 100), rare_start=(rare_start, 40, 600),
                 posterior=(posterior, 12, 300), flat=(flat, 16, 300), prior=(prior, 60, 1500), noise=(noise, 60, 1500), fridge=(fridge, 60, 1500))
