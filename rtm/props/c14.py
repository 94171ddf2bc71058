"""C14 measurements in the image"""
import numpy as np

from rtm import gen, ref

RULE = ("synthetic scenes with known ground truth: upright objects, lengths on a plane, horizons, ground areas of pixels, cones and borders of cameras of all kinds; "
        "distinct = (function, projection, lens, orientation, visible or not, shape of the arguments)")
ASSUMPTIONS = ["measurements are judged with the error that 1e-7 pixels (1e-4 pixels with a lens) mean for them", "cameras above the ground for horizons",
               "the border of the image is given in image coordinates, as the existing tests and the epipolar plots expect"]
REQUIRE = {"judged:height": 4000, "judged:length": 4000, "judged:hidden": 400, "judged:horizon": 2000, "judged:horizon-distance": 500, "judged:area": 20000, "judged:area-undefined": 3000, "judged:cone": 3000, "judged:border": 300}


def ground_hit(s, p, Z):
    """ (space points on the plane, whether the ray goes there in front of the camera) """
    d = ref.ray(s, p)
    with np.errstate(all="ignore"):
        t = (Z - s["elev"]) / d[..., 2]
    return ref.position(s) + d * t[..., None], t


def visible_scene(ctx, s, n, Z, near=0.05):
    """ points on the plane in front of the camera which are seen in or around the image """
    p = gen.image_points(ctx, s, n * 4)
    p = p[ref.valid_image(s, p)]
    x, t = ground_hit(s, p, Z)
    ok = (t > near) & (t < 2000) & np.isfinite(x).all(-1)
    return x[ok][:n]


def measure_height(s, feet, heads, Z):
    f, _ = ground_hit(s, feet, Z)
    d = ref.ray(s, heads)
    o = ref.position(s)
    with np.errstate(all="ignore"):
        k = np.sum((f - o)[:, :2] * d[:, :2], -1) / np.sum(d[:, :2] ** 2, -1)
    return o[2] + k * d[:, 2] - f[:, 2]


def measure_length(s, a, b, Z):
    return np.linalg.norm(ground_hit(s, a, Z)[0] - ground_hit(s, b, Z)[0], axis=-1)


def spread(measure, s, a, b, Z):
    """ what a small error of the image positions does to a measurement """
    e = 1e-7 + 1e-4 * (s["lens"] != "none")
    base = measure(s, a, b, Z)
    out = np.zeros(len(a))
    for d in ([e, 0], [-e, 0], [0, e], [0, -e]):
        out = np.maximum(out, np.abs(measure(s, a + d, b, Z) - base))
        out = np.maximum(out, np.abs(measure(s, a, b + d, Z) - base))
    return np.where(np.isfinite(out), 4 * out, np.inf) + 1e-9 * (1 + np.abs(base))


def seen(s, x):
    """ image positions of space points, and which of them are well defined """
    q = ref.camera_from_space(s, x)
    im = ref.image_from_space(s, x)
    ok = np.isfinite(im).all(-1)
    if s["proj"] == "rect":
        ok &= q[:, 2] < -1e-5
    im0 = np.where(ok[:, None], im, [s["cx"], s["cy"]])
    ok &= ref.valid_image(s, im0) & (ref.image_tolerance(s, x) < 1e-4)
    if s["lens"] != "none":
        back = ref.undistort(s, im0)
        with np.errstate(all="ignore"):
            ok &= np.abs(back - ref.project(s, q)).max(-1) < 1e-3
    return im0, ok


def objects(ctx):
    s = gen.spec(ctx, moderate=True)
    if ctx.chance(0.3):
        # straight along an axis
        s["heading" if s["orient"] == "thr" else "yaw"] = float(ctx.pick([0, 90, 180, -90, 270]))
        s["roll"] = 0.0
    small = 1.0
    if ctx.chance(0.2):
        # a scene on a table
        small = float(ctx.pick([0.1, 0.02, 0.005]))
        s["elev"], s["x"], s["y"] = s["elev"] * small, s["x"] * small, s["y"] * small
    n = ctx.pick([1, 2, 3, int(ctx.rng.integers(4, 30))])
    if small < 1:
        Z = ctx.pick([0, 0.0, -0.01])
        zz = np.full(n, float(Z))
    elif ctx.chance(0.5):
        Z = ctx.pick([0, 0.0, 1.0, -2.5])
        zz = np.full(n, float(Z))
    else:
        Z = zz = ctx.rng.uniform(-3, 1, n)
    x = visible_scene(ctx, s, n, float(zz[0]), 0.05 * small)
    if len(x) < n:
        n = len(x)
        zz = zz[:n]
        if np.ndim(Z):
            Z = zz
    if n == 0:
        from rtm.core import Skip
        raise Skip()
    x[:, 2] = zz
    if ctx.chance(0.1):
        x[0, :2] = [s["x"], s["y"] + 5]
    heights = ctx.rng.uniform(0.1, 3, n) * ctx.pick([1, 1, 10]) * small
    if ctx.chance(0.15):
        heights = -heights
    if ctx.chance(0.1):
        heights[0] = 0
    top = x + np.c_[np.zeros((n, 2)), heights]
    other = x + np.c_[ctx.rng.normal(size=(n, 2)) * 3 * small, np.zeros(n)]
    cam = ctx.call("Camera", gen.make_camera, s)
    kw = {} if np.ndim(Z) == 0 and Z == 0 and ctx.chance(0.7) else dict(Z=Z)
    single = ctx.chance(0.25)
    (feet, ok1), (heads, ok2), (back, ok3) = seen(s, x), seen(s, top), seen(s, other)
    if single and np.ndim(Z):
        kw = dict(Z=float(Z[0]))
    for name, fn, b, okb, want, measure in (("height", cam.getObjectHeight, heads, ok2, heights, measure_height),
                                            ("length", cam.getObjectLength, back, ok3, np.linalg.norm(other - x, axis=-1), measure_length)):
        args = (feet[0], b[0]) if single else (feet, b)
        if ctx.chance(0.2):
            args = tuple(v.tolist() for v in args)
        got = np.asarray(ctx.call(name, fn, *args, **kw), dtype=float)
        ctx.check(got.shape == (() if single else (n,)), "shape", "the %s of %s objects has the shape %s" % (name, "single" if single else n, got.shape))
        got = np.atleast_1d(got)
        ok = ok1 & okb & (np.abs(zz - s["elev"]) > 1e-6)
        tol = spread(measure, s, feet, b, zz)
        # directly above or below the camera there is no vertical seen from the side
        if name == "height":
            ok &= np.hypot(x[:, 0] - s["x"], x[:, 1] - s["y"]) > 1e-3 * small
        for i in range(len(got)):
            if ok[i] and tol[i] < 0.05 * (1 + abs(want[i])):
                ctx.check(abs(got[i] - want[i]) <= tol[i], name, "an object with a %s of %s is measured as %s" % (name, want[i], got[i]), spec=s, foot=x[i], kw=kw, tolerance=tol[i])
                ctx.seen(name, s["proj"], s["lens"], s["orient"], single, np.ndim(Z), want[i] > 0, small < 1)
    # objects which stand above the horizon cannot be measured
    p = gen.image_points(ctx, s, 30)
    p = p[ref.valid_image(s, p)]
    if len(p):
        z0 = float(zz[0])
        _, t = ground_hit(s, p, z0)
        d = ref.ray(s, p)
        bad = p[(t < -1) & (np.abs(d[:, 2]) > 1e-3)]
        if len(bad):
            h = np.asarray(cam.getObjectHeight(bad, bad + 1.0, Z=z0), dtype=float)
            l = np.asarray(cam.getObjectLength(bad, bad + 1.0, Z=z0), dtype=float)
            ctx.check(np.isnan(h).all() and np.isnan(l).all(), "hidden", "objects above the horizon have the heights %s and lengths %s" % (h[:3], l[:3]), spec=s, points=bad[:3])
            ctx.seen("hidden", s["proj"], s["lens"])
    ctx.sample(spec=s, height=heights[0])


def horizon(ctx):
    s = gen.spec(ctx, moderate=True, small=ctx.chance(0.5))
    if ctx.chance(0.06):
        # large pictures
        k = float(ctx.pick([2, 3])) * (1 if s["h"] > 1000 else 20)
        for q in ("w", "h"):
            s[q] = int(s[q] * k) + int(ctx.rng.integers(0, 2))
        for q in ("fx", "fy", "cx", "cy"):
            s[q] *= k
    s["elev"] = float(np.exp(ctx.rng.uniform(np.log(0.5), np.log(3000))))
    k = "pitch" if s["orient"] == "ypr" else "tilt"
    if ctx.chance(0.8):
        # the horizon is in or near the image
        v = np.rad2deg(np.arctan(s["h"] / 2 / s["fy"]))
        s[k] = 90 + float(ctx.rng.uniform(-1.3, 1.3) * v) - (90 if k == "pitch" else 0)
    cam = ctx.call("Camera", gen.make_camera, s)
    R = ref.R_EARTH
    want = 2 * R * np.sin(np.arccos(R / (R + s["elev"])) / 2)
    d = float(ctx.call("distanceToHorizon", cam.distanceToHorizon))
    ctx.check(abs(d - want) <= 1e-5 * want, "horizon-distance", "the horizon of a camera at %s m is %s m away and not %s" % (s["elev"], d, want))
    mode = ctx.pick(["default", "one", "list", "array"])
    if mode == "default":
        xs = np.array([0, s["w"] / 2, s["w"]])
        got = ctx.call("getImageHorizon", cam.getImageHorizon)
    elif mode == "one":
        xs = np.array([float(ctx.rng.uniform(0, s["w"]))])
        got = ctx.call("getImageHorizon", cam.getImageHorizon, xs[0] if ctx.chance(0.5) else float(xs[0]))
        ctx.check(np.shape(got) == (2,), "shape", "the horizon at one position is %s" % (np.shape(got),))
    else:
        xs = ctx.rng.uniform(0, s["w"], int(ctx.rng.integers(1, 6)))
        if ctx.chance(0.3):
            xs = np.round(xs)
        got = ctx.call("getImageHorizon", cam.getImageHorizon, xs.tolist() if mode == "list" else xs)
        ctx.check(np.shape(got) == (len(xs), 2), "shape", "the horizon at %d positions is %s" % (len(xs), np.shape(got)))
    got = np.atleast_2d(np.asarray(got, dtype=float))
    for g, x in zip(got, xs):
        ctx.check(g[0] == x, "horizon", "the horizon at x = %s was given at x = %s" % (x, g[0]))
        col = np.c_[np.full(s["h"], x), np.arange(s["h"])]
        if not ref.valid_image(s, col).all():
            continue
        z = np.abs(s["elev"] + d * ref.ray(s, col)[:, 2])
        e = d * (1e-9 + 2e-4 / s["fy"] * (s["lens"] != "none")) + 1e-6
        ctx.check(np.isfinite(g[1]) and 0 <= g[1] <= s["h"], "horizon", "the horizon at x = %s is at y = %s" % (x, g[1]), spec=s)
        zg = abs(s["elev"] + d * ref.ray(s, g[None])[0, 2])
        ctx.check(zg <= z.min() + e, "horizon", "at the horizon position %s the line of sight is %s m above or below the ground, at y = %d only %s m" % (g, zg, z.argmin(), z.min()), spec=s)
        ctx.seen("horizon", s["proj"], s["lens"], s["orient"], mode, 0 < g[1] < s["h"] - 1)


def areas(ctx):
    s = gen.spec(ctx, moderate=True, small=True)
    if ctx.chance(0.9):
        s["w"], s["h"] = min(s["w"], 50), min(s["h"], 40)
    s["cx"], s["cy"] = s["w"] / 2, s["h"] / 2
    if ctx.chance(0.4):
        s["cx"], s["cy"] = s["w"] * float(ctx.rng.uniform(0.25, 0.75)), s["h"] * float(ctx.rng.uniform(0.25, 0.75))
    if ctx.chance(0.3):
        # the horizon is in the image, the pixels below it cover huge areas
        k = "pitch" if s["orient"] == "ypr" else "tilt"
        v = np.rad2deg(np.arctan(s["h"] / 2 / s["fy"]))
        s[k] = 90 + float(ctx.rng.uniform(-1, 1) * v) - (90 if k == "pitch" else 0)
        s["elev"] = float(np.exp(ctx.rng.uniform(np.log(0.5), np.log(3000))))
    cam = ctx.call("Camera", gen.make_camera, s)
    whole = ctx.chance(0.5)
    undef = ctx.pick([0, 0, -1, np.nan, 7.5])
    kw = {}
    if whole or ctx.chance(0.3):
        kw["whole_image"] = whole
    if undef != 0 or ctx.chance(0.3):
        kw["undef_value"] = undef
    got = np.asarray(ctx.call("generateLUT", cam.generateLUT, **kw), dtype=float)
    ctx.check(got.shape == ((s["h"], s["w"]) if whole else (s["h"],)), "shape", "the look up table has the shape %s for an image of %d x %d" % (got.shape, s["w"], s["h"]))
    if whole:
        yy, xx = np.mgrid[:s["h"], :s["w"]]
        pts = np.c_[xx.ravel(), yy.ravel()].astype(float)
    else:
        pts = np.c_[np.full(s["h"], s["w"] / 2), np.arange(s["h"])]
    got = got.ravel()
    corners = pts[:, None] + np.array([[-0.5, -0.5], [0.5, -0.5], [0.5, 0.5], [-0.5, 0.5]])
    valid = ref.valid_image(s, corners.reshape(-1, 2)).reshape(-1, 4).all(-1)
    d = ref.ray(s, corners.reshape(-1, 2)).reshape(-1, 4, 3)
    g, t = ground_hit(s, corners.reshape(-1, 2), 0.0)
    g, t = g.reshape(-1, 4, 3), t.reshape(-1, 4)
    area = np.zeros(len(pts))
    for i in range(4):
        a, b = g[:, i], g[:, (i + 1) % 4]
        area += ((a[:, 0] - g[:, 0, 0]) * (b[:, 1] - g[:, 0, 1]) - (a[:, 1] - g[:, 0, 1]) * (b[:, 0] - g[:, 0, 0])) / 2
    area = np.abs(area)
    steep = np.abs(d[..., 2]).min(-1)
    on = valid & (t > 0).all(-1) & (steep > (0.02 if s["lens"] != "none" else 1e-4))
    off = valid & (t < 0).any(-1) & (np.where(t < 0, np.abs(d[..., 2]), 1).min(-1) > 1e-4)
    for i in np.flatnonzero(on):
        tol = 1e-3 if s["lens"] != "none" else 1e-8
        ctx.check(abs(got[i] - area[i]) <= tol * area[i] / steep[i] + 1e-9 * np.abs(g[i]).max() ** 2 * 1e-3, "area", "the pixel %s covers %s m² and not %s" % (pts[i], got[i], area[i]), spec=s)
    for i in np.flatnonzero(off):
        ctx.check(got[i] == undef or (np.isnan(undef) and np.isnan(got[i])), "area-undefined", "a pixel above the horizon covers %s m², it should be %s" % (got[i], undef), spec=s, pixel=pts[i])
    ctx.seen("area", s["proj"], s["lens"], whole, str(undef), bool(on.any()), bool(off.any()))


def cones(ctx):
    s = gen.spec(ctx, moderate=True, small=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    w, h, o = s["w"], s["h"], ref.position(s)
    pos = np.asarray(ctx.call("getPos", cam.getPos), dtype=float)
    ctx.check(np.array_equal(pos, o), "cone", "getPos is %s and not %s" % (pos, o))
    corners = np.array([[0, h], [w, h], [w, 0], [0, 0]], dtype=float)
    edge = []
    for k in np.linspace(0, 1, 9)[:-1]:
        edge += [[k * w, 0], [w, k * h], [w - k * w, h], [0, h - k * h]]
    edge = np.array(edge)
    if ref.valid_image(s, edge).all():
        D = ctx.pick([1, 1, 2.5, 30.0])
        cone = np.asarray(ctx.call("getCameraCone", cam.getCameraCone, **({} if D == 1 and ctx.chance(0.7) else dict(D=D))), dtype=float)
        ctx.check(cone.ndim == 2 and cone.shape[1] == 3, "shape", "the cone is %s" % (cone.shape,))
        pts = cone[np.isfinite(cone).all(-1)]
        at = np.abs(pts - o).max(-1) < 1e-9 * (1 + np.abs(o).max())
        ctx.check(at.sum() >= 4, "cone", "the lines to the camera are missing", cone=cone)
        want = o + ref.ray(s, corners) * D
        tol = 1e-8 * (1 + np.abs(o).max()) + D * 1e-3 / s["fy"] * (s["lens"] != "none")
        for c in want:
            ctx.check(np.linalg.norm(pts - c, axis=-1).min() <= tol, "cone", "the corner %s is not part of the cone" % c, cone=cone, spec=s)
        for p in pts[~at]:
            ctx.check(np.linalg.norm(want - p, axis=-1).min() <= tol, "cone", "%s is not a corner of the cone" % p, spec=s)
        # lines from the camera to the corners
        rows = [tuple(i for i in (0, 1)) for _ in ()]
        for i in range(len(cone) - 1):
            if np.isfinite(cone[i:i + 2]).all() and np.abs(cone[i] - o).max() < 1e-9 * (1 + np.abs(o).max()):
                ctx.check(np.linalg.norm(want - cone[i + 1], axis=-1).min() <= tol, "cone", "a line from the camera ends at %s" % cone[i + 1], spec=s)
        ctx.seen("cone", s["proj"], s["lens"], s["orient"], D)
        # on the ground
        cone = np.asarray(ctx.call("getCameraCone", cam.getCameraCone, project_to_ground=True), dtype=float)
        pts = cone[np.isfinite(cone).all(-1)]
        pts = pts[np.abs(pts - o).max(-1) > 1e-9 * (1 + np.abs(o).max())]
        if len(pts):
            ctx.check(np.abs(pts[:, 2]).max() < 1e-6 * (1 + np.abs(pts).max()), "cone", "the projected cone is not on the ground", spec=s)
            im = ref.image_from_space(s, pts)
            t = ref.image_tolerance(s, pts, rel=1e-10) + 0.01 * (s["lens"] != "none") + 1e-4
            dist = np.minimum(np.minimum(np.abs(im[:, 0]), np.abs(im[:, 0] - w)), np.minimum(np.abs(im[:, 1]), np.abs(im[:, 1] - h)))
            ok = t < 0.5
            ctx.check(np.all(dist[ok] <= t[ok]), "cone", "the projected cone is not the border of the image", spec=s, point=pts[ok][np.argmax(dist[ok] - t[ok])] if ok.any() else None)
            ctx.seen("ground-cone", s["proj"], s["lens"], s["orient"])
        # all of the border which sees the ground is there
        ground, t = ground_hit(s, edge, 0.0)
        vis = (t > 0.01) & (ref.ray(s, edge)[:, 2] < -0.05)
        if vis.any() and len(pts):
            im = ref.image_from_space(s, pts)
            for e in edge[vis]:
                ctx.check(np.linalg.norm(im - e, axis=-1).min() < 1.5, "cone", "the border point %s of the image is not in the projected cone" % e, spec=s)
    r = ctx.pick([1, 1, 2, 0.5, 7, 3.3])
    b = np.asarray(ctx.call("getImageBorder", cam.getImageBorder, **({} if r == 1 else dict(resolution=r))), dtype=float)
    on = ((np.abs(b[:, 0]) < 1e-9) | (np.abs(b[:, 0] - w) < 1e-9) | (np.abs(b[:, 1]) < 1e-9) | (np.abs(b[:, 1] - h) < 1e-9))
    inside = (b >= -1e-9).all(-1) & (b[:, 0] <= w + 1e-9) & (b[:, 1] <= h + 1e-9)
    ctx.check(on.all() and inside.all(), "border", "points %s are not on the border" % b[~(on & inside)][:3])
    for e in edge:
        ctx.check(np.linalg.norm(b - e, axis=-1).min() <= r + 1e-9, "border", "the border point %s is missing" % e, resolution=r)
    step = np.linalg.norm(np.diff(b, axis=0), axis=-1)
    ctx.check(step.max() <= r * 1.5 + 1e-9, "border", "the points of the border have a distance of %s" % step.max(), resolution=r)
    ctx.seen("border", r)


SCENARIOS = dict(objects=(objects, 1600, 30000), horizon=(horizon, 900, 12000), areas=(areas, 350, 6000), cones=(cones, 350, 6000))
