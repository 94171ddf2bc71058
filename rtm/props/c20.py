"""C20 plots and summaries of fit information and traces"""
import contextlib
import io

import numpy as np

from rtm import gen, ref
from rtm.core import Skip

RULE = ("cameras with random fit information of all kinds (single and many, only plotted or scored, with and without color), which are moved or refitted and plotted, alone and over a picture; "
        "hand-made and sampled traces with consecutive, reversed, repeated and text index values and with extreme, constant and two-peaked columns, plotted with all options and summarised; "
        "distinct = (kinds of information, single or many, picture, changed) and (index of the trace, kind of data, options)")
ASSUMPTIONS = ["the positions of the model in the image are those the camera itself reports (they are decided by C01, C02 and C14)",
               "the smooth distribution is the Gaussian kernel density estimate of scipy"]
REQUIRE = {"judged:trace-again": 80, "judged:given": 700, "judged:model": 700, "judged:connected": 500, "judged:count": 200, "judged:picture": 200, "judged:limits": 200, "judged:horizon-line": 80, "judged:color": 60,
           "judged:trace-line": 150, "judged:trace-marks": 200, "judged:trace-density": 250, "judged:trace-axes": 200, "judged:summary": 400, "judged:unchanged": 200}


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def offsets(collection):
    o = np.ma.masked_invalid(np.ma.asarray(collection.get_offsets(), dtype=float))
    return o.filled(np.nan)


class Info:
    """ one piece of information: the points which are given, and where the camera sees them """

    def __init__(self, kind, given, model, partner, color, lines=()):
        self.kind, self.given, self.model, self.partner, self.color, self.lines = kind, given, model, partner, color, lines


def rows(p):
    return np.atleast_2d(np.asarray(p, dtype=float))


def add_info(ctx, cam, s, kind):
    n = int(ctx.pick([1, 2, 2, 3, 7]))
    single = ctx.chance(0.25)
    only = ctx.chance(0.5)
    color = ctx.pick([None, None, "r", "C3", "#102030"])
    kw = {}
    if only or ctx.chance(0.3):
        kw["only_plot"] = only
    if color is not None:
        kw["plot_color"] = color
    im = gen.image_points(ctx, s, n)
    im = im[ref.valid_image(s, im)]
    if kind != "horizon" and ctx.chance(0.9):
        d = ref.ray(s, im)
        im = im[-s["elev"] / d[:, 2] > 0.01]
    if len(im) == 0:
        return None
    im2 = im + ctx.rng.normal(size=im.shape) * s["h"] * 0.05
    im2 = np.where(ref.valid_image(s, im2)[:, None], im2, im - 0.25)
    if single:
        im, im2 = im[0], im2[0]
    if kind in ("height", "length"):
        size = float(ctx.rng.uniform(0.2, 3)) if single or ctx.chance(0.6) else ctx.rng.uniform(0.2, 3, len(im))
        if kind == "height":
            ctx.call("add-height", cam.addObjectHeightInformation, im, im2, size, 0.3, **kw)

            def model(c):
                p = np.array(c.spaceFromImage(im, Z=0))
                return c.imageFromSpace(p + np.stack([np.zeros_like(p[..., 0])] * 2 + [np.zeros_like(p[..., 0]) + size], -1))
        else:
            Z = float(ctx.pick([0, 0, 1.5, -2]))
            if Z or ctx.chance(0.3):
                kw["Z"] = Z
            ctx.call("add-length", cam.addObjectLengthInformation, im, im2, size, 0.3, **kw)

            def model(c):
                a, b = np.array(c.spaceFromImage(im, Z=Z)), np.array(c.spaceFromImage(im2, Z=Z))
                with np.errstate(all="ignore"):
                    e = (b - a) / np.linalg.norm(b - a, axis=-1, keepdims=True)
                return c.imageFromSpace(a + e * np.asarray(size)[..., None])
        return Info(kind, [im, im2], model, im2 if kind == "height" else im, color)
    if kind in ("landmark", "gps"):
        x = ref.position(s) + ref.ray(s, rows(im)) * ctx.rng.uniform(1, 100, (len(rows(im)), 1)) + ctx.rng.normal(size=rows(im).shape[:1] + (3,)) * ctx.pick([0, 1])
        if kind == "gps":
            x = np.asarray(cam.gpsFromSpace(x), dtype=float)
        x = x[0] if single else x
        unc = ctx.pick([[3, 3, 5], [0.5, 0.5, 0.5]])
        if kind == "gps":
            ctx.call("add-gps", cam.addLandmarkInformationGPS, im, x, unc, **kw)
        else:
            ctx.call("add-landmark", cam.addLandmarkInformation, im, x, unc, **kw)
        return Info(kind, [im], lambda c: c.imageFromGPS(x) if kind == "gps" else c.imageFromSpace(x), im, color)
    unc = float(ctx.rng.uniform(0.5, 10))
    given = im.tolist() if ctx.chance(0.3) else im
    ctx.call("add-horizon", cam.addHorizonInformation, given, unc, **kw)
    return Info(kind, [im], lambda c: c.getImageHorizon(im[..., 0]), im, color, lines=[lambda c: c.getImageHorizon(np.arange(c.image_width_px))])


def fitplot(ctx):
    import matplotlib.colors as mc
    import matplotlib.pyplot as plt
    s = gen.spec(ctx, moderate=True, small=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    other = gen.make_camera(gen.spec(ctx, moderate=True, small=True))
    cam.setGPSpos(s["lat"], s["lon"], s["elev"])
    infos = []
    for _ in range(int(ctx.rng.integers(1, 5))):
        i = add_info(ctx, cam, s, ctx.pick(["height", "length", "landmark", "gps", "horizon"]))
        if i is not None:
            infos.append(i)
        if ctx.chance(0.2):
            add_info(ctx, other, gen.spec_of(other), "landmark")
    if not infos:
        raise Skip()
    changed = False
    for turn in range(int(ctx.rng.integers(1, 3))):
        if ctx.chance(0.5):
            changed = True
            key = ctx.pick(["elev", "fx", "x", "roll", "cy", "heading" if s["orient"] == "thr" else "yaw"])
            cam_s = gen.spec_of(cam)
            setattr(cam, gen.NAMES[key], cam_s[key] * 1.02 + 0.3)
            if ctx.chance(0.4):
                cam.setGPSpos(cam_s["lat"] + float(ctx.rng.normal()) * 3e-5, cam_s["lon"] + float(ctx.rng.normal()) * 3e-5)
        before = {k: getattr(cam, k) for k in cam.parameters.parameters}
        plt.close("all")
        image = None
        if ctx.chance(0.4):
            image = ctx.rng.integers(0, 255, (cam.image_height_px, cam.image_width_px)).astype(np.uint8)
        ctx.call("plotFitInformation", cam.plotFitInformation, *([] if image is None else [image]))
        ax = plt.gca()
        after = {k: getattr(cam, k) for k in cam.parameters.parameters}
        ctx.check(before == after, "unchanged", "plotting changed the camera")
        ctx.check(len(plt.gcf().axes) == 1, "picture", "%d pictures" % len(plt.gcf().axes))
        pictures = [np.asarray(p.get_array()) for p in ax.images]
        ctx.check(len(pictures) == (image is not None) and (image is None or np.array_equal(pictures[0], image)), "picture", "%d pictures are shown" % len(pictures))
        ctx.check(tuple(ax.get_xlim()) == (0, cam.image_width_px) and tuple(ax.get_ylim()) == (cam.image_height_px, 0), "limits",
                  "the limits of the plot are %s %s" % (ax.get_xlim(), ax.get_ylim()))
        lines = [(line, np.asarray(line.get_xydata(), dtype=float)) for line in ax.lines]
        dots = [(c, offsets(c)) for c in ax.collections]
        ctx.check(len(dots) == len(infos), "count", "%d kinds of information are plotted, there are %d" % (len(dots), len(infos)))
        for i in infos:
            with np.errstate(all="ignore"):
                want = rows(i.model(cam))
            marks = []
            for g in i.given:
                at = [line for line, p in lines if close(p, rows(g), 1e-9) and line.get_marker() not in ("None", None, "", " ")]
                ctx.check(len(at) > 0, "given", "the given points of the %s are not shown" % i.kind, given=g, spec=s)
                marks += at
            shown = [c for c, p in dots if close(p, want)]
            ctx.check(len(shown) > 0, "model", "the positions where the camera sees the %s are not shown" % i.kind, want=want, shown=[p for c, p in dots], spec=gen.spec_of(cam))
            if np.isfinite(want).all():
                # given and seen points are connected in pairs
                partner = rows(i.partner)
                ok = False
                for line, p in lines:
                    segs = [(p[k], p[k + 1]) for k in range(len(p) - 1) if np.isfinite(p[k:k + 2]).all()]
                    if line.get_linestyle() == "-" and len(segs) == len(partner):
                        ok |= all(close([a, b], [g, w]) or close([b, a], [g, w]) for (a, b), g, w in zip(segs, partner, want))
                ctx.check(ok, "connected", "the given points of the %s are not connected with where the camera sees them" % i.kind, spec=s)
            for fn in i.lines:
                w = rows(fn(cam))
                ctx.check(any(close(p, w) for line, p in lines), "horizon-line", "the horizon of the camera is not drawn", spec=s)
            if i.color is not None:
                rgb = mc.to_rgba(i.color)
                ctx.check(any(mc.to_rgba(line.get_color()) == rgb for line in marks), "color", "the %s is not shown in %s" % (i.kind, i.color))
                ctx.check(any(len(c.get_edgecolor()) and tuple(c.get_edgecolor()[0]) == rgb for c in shown), "color", "the model of the %s is not shown in %s" % (i.kind, i.color))
            ctx.seen("fit", i.kind, len(want), image is not None, changed, i.color is not None, bool(np.isfinite(want).all()))
    plt.close("all")


def make_trace(ctx):
    import pandas as pd
    n = int(ctx.pick([3, 8, 30, 200, 1001]))
    names = [str(v) for v in ctx.rng.permutation(["elevation_m", "tilt_deg", "roll_deg", "heading_deg", "focallength_x_px", "pos_x_m", "sigma"])[:int(ctx.rng.integers(1, 5))]]
    data, kinds = {}, []
    for name in names:
        kind = ctx.pick(["normal", "normal", "large", "tiny", "peaks", "constant", "negative", "int"])
        x = ctx.rng.normal(size=n)
        data[name] = dict(normal=x * 2 + 30, large=x * 3e4 + 1e6, tiny=x * 1e-6 + 2e-5, peaks=x * 0.1 + np.where(ctx.rng.random(n) < 0.4, 5, -5), constant=np.full(n, 12.5),
                          negative=-50 - np.abs(x), int=np.round(x * 10))[kind]
        kinds.append(kind)
    prob = -0.5 * ctx.rng.normal(size=n) ** 2 * 10 - 5
    if ctx.chance(0.2):
        prob[ctx.rng.random(n) < 0.3] = -np.inf
    data["probability"] = prob
    trace = pd.DataFrame(data)
    index = ctx.pick(["range", "range", "reversed", "repeated", "offset", "text"])
    if index == "reversed":
        trace = trace.iloc[::-1]
    elif index == "repeated":
        trace = pd.concat([trace.iloc[:n // 2].reset_index(drop=True), trace.iloc[n // 2:].reset_index(drop=True)])
    elif index == "offset":
        trace.index = trace.index * 3 + 100
    elif index == "text":
        trace.index = ["row %d" % i for i in range(n)]
    return trace, names, kinds, index


def owner(ctx, trace):
    """ an object which has this trace """
    c = gen.ct()
    u = ctx.rng.random()
    cam = gen.make_camera(gen.spec(ctx, orient="thr"))
    if u < 0.7:
        cam.set_trace(trace)
        return cam
    g = c.CameraGroup(cam.projection, cam.orientation, cam.lens)
    g.set_trace(trace)
    return g


def density(x, at):
    from scipy.stats import gaussian_kde
    return gaussian_kde(x)(at)


def traceplot(ctx):
    import matplotlib.pyplot as plt
    trace, names, kinds, index = make_trace(ctx)
    cam = owner(ctx, trace)
    kept = trace.copy()
    kw = {}
    if ctx.chance(0.3):
        kw["just_distributions"] = True
    if ctx.chance(0.3):
        kw["skip"] = int(ctx.pick([1, 2, 3]))
    if ctx.chance(0.3):
        kw["show_mean_median"] = bool(ctx.chance(0.5))
    if ctx.chance(0.3):
        kw["N"] = int(ctx.rng.integers(1, len(names) + 2))
    shown = names[:kw.get("N", len(names))]
    plt.close("all")
    fig = plt.figure()
    flat = bool(kw.get("just_distributions"))
    own_axes = ctx.chance(0.25)
    if own_axes:
        axes = list(fig.subplots(len(names), 2).ravel())
        kw["axes"] = axes
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx.call("plotTrace", cam.plotTrace, **kw)
    if not own_axes:
        axes = fig.axes
        ctx.check(len(axes) == len(shown) * (1 if flat else 2), "trace-axes", "%d axes for %d parameters" % (len(axes), len(shown)), options=kw)
        left, right = (axes, []) if flat else (axes[::2], axes[1::2])
    else:
        left, right = axes[::2], axes[1::2]
    best = int(np.argmax(trace["probability"].to_numpy()))
    marks = kw.get("show_mean_median", True)
    for k, name in enumerate(shown):
        x = trace[name].to_numpy(dtype=float)
        skip = kw.get("skip", 1)
        top = np.flatnonzero(trace["probability"].to_numpy() == trace["probability"].to_numpy()[best])
        ax = left[k]
        ctx.check(ax.get_xlabel() == name, "trace-axes", "the distribution of %s is labelled %s" % (name, ax.get_xlabel()))
        data = [np.asarray(line.get_xydata(), dtype=float) for line in ax.lines]
        if np.ptp(x[::skip]) > 0 and len(x[::skip]) > 2:
            curve = [p for p in data if len(p) > 50]
            ctx.check(len(curve) == 1, "trace-density", "%d curves for the distribution of %s" % (len(curve), name), printed=out.getvalue()[-200:])
            at, y = curve[0].T
            want = density(x[::skip], at)
            ctx.check(np.isclose(at.min(), x.min()) and np.isclose(at.max(), x.max()), "trace-density", "the distribution of %s is shown from %s to %s, the data is from %s to %s" % (name, at.min(), at.max(), x.min(), x.max()))
            ctx.check(np.allclose(y, want, rtol=1e-6, atol=1e-9 * want.max()), "trace-density", "the distribution of %s is not that of its data" % name, kinds=kinds, options=str(kw))
        elif np.ptp(x) == 0:
            ctx.count["no distribution"] += 1
        vertical = [p[0, 0] for p in data if len(p) == 2]
        mean, tol = x.mean(), 1e-9 * (1 + np.abs(x).max())
        if marks:
            ctx.check(len(vertical) == 2 and min(abs(v - mean) for v in vertical) <= tol and min(abs(v - x[t]) for v in vertical for t in top) <= tol, "trace-marks",
                      "the distribution of %s is marked at %s, the mean is %s and the most probable value %s" % (name, vertical, mean, x[best]), index=index, options=str(kw))
        else:
            ctx.check(not vertical, "trace-marks", "marks are shown in the distribution of %s" % name)
        if not flat:
            ax = right[k]
            ctx.check(ax.get_title() == name, "trace-axes", "the trace of %s has the title %s" % (name, ax.get_title()))
            data = [(line, np.asarray(line.get_ydata(orig=False), dtype=float)) for line in ax.lines]
            curve = [line for line, y in data if np.array_equal(y, x[::skip])]
            ctx.check(len(curve) > 0, "trace-line", "the trace of %s is not shown" % name, options=str(kw))
            horizontal = [y[0] for line, y in data if line is not curve[0] and len(y) == 2 and y[0] == y[1] and list(line.get_xdata()) == [0, 1]]
            if marks:
                ctx.check(len(horizontal) == 2 and min(abs(v - mean) for v in horizontal) <= tol and min(abs(v - x[t]) for v in horizontal for t in top) <= tol, "trace-marks",
                          "the trace of %s is marked at %s, the mean is %s and the most probable value %s" % (name, horizontal, mean, x[best]), index=index)
            else:
                ctx.check(not horizontal, "trace-marks", "marks are shown in the trace of %s" % name)
        ctx.seen("trace", index, kinds[k], flat, skip, marks, own_axes)
    if not own_axes and ctx.chance(0.4):
        # a second trace in the same figure is drawn over the first one, into the axes of its parameters
        once = [len(a.lines) for a in fig.axes]
        with contextlib.redirect_stdout(out):
            ctx.call("plotTrace (again)", cam.plotTrace, **kw)
        ctx.check(fig.axes == list(axes), "trace-again", "%d axes for %d parameters after the second plot" % (len(fig.axes), len(shown)), options=kw)
        ctx.check([len(a.lines) for a in fig.axes] == [2 * n for n in once], "trace-again", "the axes have %s lines after one plot and %s after two" % (once, [len(a.lines) for a in fig.axes]), options=kw)
    ctx.check(trace.equals(kept), "unchanged", "plotting changed the trace")
    plt.close("all")


def summaries(ctx):
    trace, names, kinds, index = make_trace(ctx)
    cam = owner(ctx, trace)
    kept = trace.copy()
    out = io.StringIO()
    log = None
    with contextlib.redirect_stdout(out):
        if ctx.chance(0.3):
            from cameratransform import statistic
            log = [bool(k in ("normal", "peaks", "constant") and ctx.chance(0.5)) for k in kinds]
            ctx.call("printTraceSummary", statistic.printTraceSummary, trace, logarithmic=log)
        else:
            ctx.call("printTraceSummary", cam.printTraceSummary)
    lines = out.getvalue().strip().split("\n")
    ctx.check(len(lines) == len(names) + 1 and str(len(trace)) in lines[0], "summary", "the summary of %d parameters and %d rows is %s" % (len(names), len(trace), lines))
    for k, (name, line) in enumerate(zip(names, lines[1:])):
        got, rest = line.rsplit(" ", 1)
        try:
            m, sd = [float(v) for v in rest.split("±")]
        except ValueError:
            ctx.fail("summary", "the summary of %s is '%s'" % (name, line))
        x = trace[name].to_numpy(dtype=float)
        if log is not None and log[k]:
            x = np.exp(x)
        mean, std = x.mean(), x.std()
        digit = 10.0 ** np.floor(np.log10(std)) if std > 1e-12 * abs(mean) else 1e-9 * abs(mean)
        ctx.check(got == name and abs(m - mean) <= 0.5000001 * digit + 1e-9 * abs(mean), "summary", "the mean of %s is %s, the summary says %s" % (name, mean, line), std=std)
        ctx.check(abs(sd - std) <= 0.0500001 * digit + 1e-9 * abs(mean), "summary", "the standard deviation of %s is %s, the summary says %s" % (name, std, line))
    ctx.check(trace.equals(kept), "unchanged", "the summary changed the trace")
    ctx.seen("summary", index, tuple(sorted(set(kinds))), log is not None, len(trace))


SCENARIOS = dict(fitplot=(fitplot, 400, 6000), traceplot=(traceplot, 240, 4000), summaries=(summaries, 300, 6000))
