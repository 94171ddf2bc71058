"""C19 scenes and plots of cameras"""
import numpy as np

from rtm import gen, ref

RULE = ("scenes of cubes, rectangles, grids and own objects which are built up, shown and rendered while the camera moves or is exchanged, and plots of the epipolar lines of two cameras; "
        "the drawn lines and the pixels of the rendered files are observed; distinct = (function, projection, lens, orientation, kinds of objects, what changed before)")
ASSUMPTIONS = ["pixels within 5 pixels of the border of a rendered image (axes) and within 4 pixels of a line are not judged as background",
               "scenes are shown with a camera"]
REQUIRE = {"judged:cube": 400, "judged:rect": 300, "judged:grid": 300, "judged:separate": 200, "judged:view": 1500, "judged:view-image": 400, "judged:view-cone": 150, "judged:view-horizon": 100, "judged:file": 100,
           "judged:render-line": 3000, "judged:render-background": 100, "judged:epipolar-line": 800, "judged:epipolar-foot": 80, "judged:epipolar-text": 80}
CHUNK = 10


def segments(points):
    """ the straight pieces of a line with gaps """
    points = np.asarray(points, dtype=float)
    ok = np.isfinite(points).all(-1)
    return [(points[i], points[i + 1]) for i in range(len(points) - 1) if ok[i] and ok[i + 1]]


def same_edges(ctx, mech, points, want, tol):
    """ the line consists of exactly these edges """
    got = segments(points)
    hit = [False] * len(want)
    for a, b in got:
        found = False
        for i, (c, d) in enumerate(want):
            if (np.abs(a - c).max() <= tol and np.abs(b - d).max() <= tol) or (np.abs(a - d).max() <= tol and np.abs(b - c).max() <= tol):
                hit[i] = found = True
        ctx.check(found, mech, "the line from %s to %s is not an edge" % (a, b))
    ctx.check(all(hit), mech, "%d of %d edges are missing" % (hit.count(False), len(hit)), missing=[w for w, h in zip(want, hit) if not h][:3])


def add_object(ctx, scene, at, size):
    kind = ctx.pick(["cube", "rect", "grid", "own"])
    pos = np.asarray(at, dtype=float)
    if ctx.chance(0.2):
        pos = np.round(pos)
    given = ctx.pick([list, tuple, np.array])(pos)
    r = size / 2
    tol = 1e-9 * (np.abs(pos).max() + size)
    n = len(scene.objects)
    if kind == "cube":
        got = ctx.call("addCube", scene.addCube, given, size)
        corner = [pos + r * np.array([i, j, k]) for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]
        want = [(a, b) for i, a in enumerate(corner) for b in corner[:i] if (np.abs(a - b) > r).sum() == 1]
        assert len(want) == 12
        same_edges(ctx, "cube", got, want, tol)
    elif kind == "rect":
        got = ctx.call("addRect", scene.addRect, given, size)
        corner = [pos + r * np.array([i, 0, k]) for i in (-1, 1) for k in (-1, 1)]
        want = [(a, b) for i, a in enumerate(corner) for b in corner[:i] if (np.abs(a - b) > r).sum() == 1]
        same_edges(ctx, "rect", got, want, tol)
    elif kind == "grid":
        xs = pos[0] + np.sort(ctx.rng.uniform(-1, 1, int(ctx.rng.integers(2, 6)))) * size
        ys = pos[1] + np.sort(ctx.rng.uniform(-1, 1, int(ctx.rng.integers(2, 6)))) * size
        if ctx.chance(0.3):
            xs, ys = ctx.rng.permutation(xs), ctx.rng.permutation(ys)
        got = ctx.call("addGrid", scene.addGrid, *([xs.tolist(), ys.tolist()] if ctx.chance(0.3) else [xs, ys]))
        want = [(np.array([xs.min(), y, 0]), np.array([xs.max(), y, 0])) for y in ys] + [(np.array([x, ys.min(), 0]), np.array([x, ys.max(), 0])) for x in xs]
        same_edges(ctx, "grid", got, want, tol)
    else:
        got = pos + np.cumsum(ctx.rng.normal(size=(int(ctx.rng.integers(2, 8)), 3)), axis=0) * size / 3
        if ctx.chance(0.3) and len(got) > 3:
            got[2] = np.nan
        ctx.call("add", scene.add, got)
    ctx.check(len(scene.objects) == n + 1 and np.array_equal(np.asarray(scene.objects[-1]), np.asarray(got), equal_nan=True), "separate", "the new object is not the last one of the scene")
    keep = np.array(got, dtype=float)
    if kind != "own" and isinstance(got, np.ndarray) and got.flags.writeable and ctx.chance(0.5):
        # what the caller does with the returned points does not change the scene
        got += 7
        ctx.check(np.array_equal(np.asarray(scene.objects[-1], dtype=float), keep, equal_nan=True), "separate", "the %s of the scene moves with the points that were returned" % kind)
    return kind, keep


def has_line(axes, data, tol, s=None):
    for line in axes.lines:
        xy = np.asarray(line.get_xydata(), dtype=float)
        if xy.shape == data.shape and (np.isnan(xy).any(-1) == np.isnan(data).any(-1)).all():
            with np.errstate(all="ignore"):
                bad = np.abs(ref.wrap_x(s, xy - data) if s else xy - data) > tol
            if not bad.any():
                return True
    return False


def image_line(s, obj):
    """ image positions as they have to be drawn, and their tolerances """
    want = ref.image_from_space(s, obj)
    q = ref.camera_from_space(s, obj)
    if s["proj"] == "rect":
        want[q[:, 2] > 0] = np.nan
    tol = ref.image_tolerance(s, obj, rel=1e-11)
    clear = np.isnan(obj).any(-1) | ((np.abs(q[:, 2]) > 1e-6) & (np.hypot(q[:, 0], q[:, 2]) > 1e-6) & np.isfinite(tol) & (tol < 0.05))
    return want, np.where(np.isfinite(tol), tol, 1), bool(clear.all())


def near_camera(ctx, s, ahead):
    """ a place which the camera sees (or not) """
    d = ref.ray(s, gen.image_points(ctx, s, 1, inside=True))[0] if ahead else ctx.rng.normal(size=3)
    if not np.isfinite(d).all():
        d = ctx.rng.normal(size=3)
    return ref.position(s) + d / np.linalg.norm(d) * float(ctx.rng.uniform(3, 40))


def move(ctx, cam, s):
    key = ctx.pick(["elev", "x", "y", "roll", "fx", "cx", "tilt" if s["orient"] == "thr" else "pitch", "heading" if s["orient"] == "thr" else "yaw"])
    v = float(s[key] * ctx.rng.uniform(0.9, 1.1) + (ctx.rng.normal() if key != "fx" else 0))
    s[key] = v
    setattr(cam, gen.NAMES[key], v)
    return key


def views(ctx):
    import matplotlib.pyplot as plt
    c = gen.ct()
    s = gen.spec(ctx, small=True, moderate=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    scene, other = c.Scene(), c.Scene()
    scene.setCamera(cam)
    objects = []
    changed = "new"
    for step in range(int(ctx.rng.integers(1, 4))):
        if step:
            changed = ctx.pick(["moved", "camera", "object"])
            if changed == "moved":
                move(ctx, cam, s)
            elif changed == "camera":
                s = gen.spec(ctx, small=True, moderate=True)
                cam = gen.make_camera(s)
                scene.setCamera(cam)
        for _ in range(int(ctx.rng.integers(1, 4))):
            objects.append(add_object(ctx, scene, near_camera(ctx, s, ctx.chance(0.7)), float(ctx.rng.uniform(0.2, 8))))
        ctx.check(len(other.objects) == 0 and len(scene.objects) == len(objects), "separate", "objects of one scene appeared in another one")
        for (kind, obj), kept in zip(objects, scene.objects):
            ctx.check(np.array_equal(obj, np.asarray(kept), equal_nan=True), "separate", "an object of the scene changed")
        plt.close("all")
        if ctx.chance(0.5):
            axes = None
        else:
            fig, axes = plt.subplots(1, 4)
        ctx.call("plotSceneViews", scene.plotSceneViews, *([] if axes is None else [axes]))
        if axes is None:
            axes = plt.gcf().axes
        ctx.check(len(axes) == 4, "view", "%d views of a scene" % len(axes))
        pairs = ((0, 1), (0, 2), (1, 2))
        for kind, obj in objects:
            for ax, (i, j) in zip(axes, pairs):
                ctx.check(has_line(ax, obj[:, [i, j]], 1e-9 * (1 + np.nanmax(np.abs(obj)))), "view", "the view of the coordinates %d and %d does not show a %s" % (i, j, kind), object=obj)
            want, tol, clear = image_line(s, obj)
            if clear:
                ctx.check(has_line(axes[3], want, tol[:, None], s), "view-image", "a %s is not shown where the camera sees it" % kind, spec=s, object=obj, want=want,
                          drawn=[line.get_xydata() for line in axes[3].lines][:4])
            ctx.seen("views", s["proj"], s["lens"], s["orient"], kind, changed)
        # the camera itself
        corners = np.array([[0, s["h"]], [s["w"], s["h"]], [s["w"], 0], [0, 0]], dtype=float)
        if ref.valid_image(s, corners).all():
            edge = ref.position(s) + ref.ray(s, corners)
            tol = 1e-8 * (1 + np.abs(edge).max()) + 1e-3 / s["fy"] * (s["lens"] != "none")
            for ax, (i, j) in zip(axes, pairs):
                pts = [np.asarray(line.get_xydata(), dtype=float) for line in ax.lines]
                ok = any(all(np.nanmin(np.linalg.norm(p - e[[i, j]], axis=-1)) <= tol for e in list(edge) + [ref.position(s)]) for p in pts if len(p) and np.isfinite(p).any())
                ctx.check(ok, "view-cone", "the view of the coordinates %d and %d does not show the camera" % (i, j), spec=s)
        xlim, ylim = axes[3].get_xlim(), axes[3].get_ylim()
        ctx.check(np.allclose(xlim, (0, s["w"])) and np.allclose(ylim, (s["h"], 0)), "view-horizon", "the image view shows %s %s for an image of %d x %d" % (xlim, ylim, s["w"], s["h"]))
        xs = np.linspace(0, s["w"], 100)
        fresh = gen.make_camera(s).getImageHorizon(xs)
        ctx.check(has_line(axes[3], np.asarray(fresh, dtype=float), 1e-6), "view-horizon", "the horizon is not shown in the image view", spec=s)
        plt.close("all")


def distance_to_segments(shape, segs):
    """ for each pixel centre the distance to the nearest piece of a line """
    y, x = np.mgrid[:shape[0], :shape[1]]
    best = np.full(shape, np.inf)
    for a, b in segs:
        d = b - a
        n = d @ d
        t = np.clip(((x - a[0]) * d[0] + (y - a[1]) * d[1]) / n, 0, 1) if n > 0 else 0
        best = np.minimum(best, np.hypot(x - a[0] - t * d[0], y - a[1] - t * d[1]))
    return best


def render(ctx):
    import os
    import matplotlib.image
    import matplotlib.pyplot as plt
    c = gen.ct()
    s = gen.spec(ctx, proj="rect", moderate=True)
    scene = c.Scene()
    plt.close("all")
    for step in range(int(ctx.rng.integers(1, 4))):
        changed = "new"
        if step == 0 or ctx.chance(0.5):
            s = gen.spec(ctx, proj="rect", moderate=True)
            f = float(ctx.rng.uniform(0.5, 2))
            s["w"], s["h"] = int(ctx.rng.integers(60, 260)), int(ctx.rng.integers(60, 220))
            s["cx"], s["cy"], s["fx"], s["fy"] = s["w"] / 2, s["h"] / 2, s["w"] * f, s["w"] * f
            cam = gen.make_camera(s)
            scene = c.Scene()
            objects = []
            scene.setCamera(cam)
            changed = "camera"
        else:
            move(ctx, cam, s)
            changed = "moved"
        for _ in range(int(ctx.rng.integers(1, 3))):
            objects.append(add_object(ctx, scene, near_camera(ctx, s, True), float(ctx.rng.uniform(0.5, 5))))
        name = ctx.tmp("render%d.png" % step)
        ctx.call("renderImage", scene.renderImage, name)
        ctx.check(os.path.exists(name), "file", "no file was written")
        im = matplotlib.image.imread(name)
        # matplotlib may cut a pixel off when it converts the size to inches and back
        ctx.check(abs(im.shape[0] - s["h"]) <= 1 and abs(im.shape[1] - s["w"]) <= 1, "file", "the rendered image has %s pixels, the camera %s" % (im.shape[:2], (s["h"], s["w"])), step=step)
        ctx.seen("render", s["lens"], s["orient"], changed, tuple(sorted({k for k, _ in objects})))
        lines = [image_line(s, obj) for _, obj in objects]
        if not all(clear for _, _, clear in lines):
            continue
        segs = [seg for want, _, _ in lines for seg in segments(want)]
        segs = [(np.clip(a, -1e5, 1e5), np.clip(b, -1e5, 1e5)) for a, b in segs if max(np.abs(a).max(), np.abs(b).max()) < 1e4]
        if len(segs) < sum(len(segments(want)) for want, _, _ in lines):
            continue
        dist = distance_to_segments(im.shape[:2], segs) if segs else np.full(im.shape[:2], np.inf)
        inner = np.zeros(im.shape[:2], dtype=bool)
        inner[5:-5, 5:-5] = True
        far = inner & (dist > 4)
        back = np.array([68, 1, 84]) / 255
        painted = np.abs(im[..., :3] - back).max(-1) > 0.06
        ctx.check(not (painted & far).any(), "render-background", "%d pixels away from all objects are painted" % (painted & far).sum(), spec=s, pixel=np.argwhere(painted & far)[:1])
        near = inner & (dist < 0.35)
        for r, k in np.argwhere(near)[:200]:
            ctx.check(painted[max(0, r - 2):r + 3, max(0, k - 2):k + 3].any(), "render-line", "nothing is painted at row %d, column %d, where the camera sees an object" % (r, k), spec=s)
    plt.close("all")


def epipolar(ctx):
    import matplotlib.pyplot as plt
    from rtm.props.c13 import stereo_specs, common_points, make_group, epipolar_distance
    specs, target = stereo_specs(ctx, plain=True)
    x = common_points(ctx, specs, target, 12)
    if len(x) < 9:
        from rtm.core import Skip
        raise Skip()
    g = ctx.call("CameraGroup", make_group, specs)
    a, b = [np.asarray(v, dtype=float) for v in g.imagesFromSpace(x)]
    n = int(ctx.rng.integers(1, 5))
    noise = ctx.pick([0, 2, 10])
    a2, b2 = a[:n] + ctx.rng.normal(size=(n, 2)) * noise, b[:n] + ctx.rng.normal(size=(n, 2)) * noise
    plt.close("all")
    kw = {}
    if ctx.chance(0.4):
        kw = dict(im1=ctx.rng.integers(0, 200, (specs[0]["h"] // 50 + 2, specs[0]["w"] // 50 + 2)).astype(float), im2=ctx.rng.integers(0, 200, (5, 6)).astype(float))
        if ctx.chance(0.4):
            del kw[ctx.pick(["im1", "im2"])]
    ctx.call("plotMyEpiploarLines", g.plotMyEpiploarLines, a2, b2, **kw)
    axes = plt.gcf().axes
    ctx.check(len(axes) == 2, "epipolar-line", "%d pictures for two cameras" % len(axes))
    for ax, (k, own, others) in zip(axes, ((0, a2, b2), (1, b2, a2))):
        pictures = [np.asarray(i.get_array(), dtype=float) for i in ax.images]
        if "im%d" % (k + 1) in kw:
            ctx.check(len(pictures) == 1 and np.array_equal(pictures[0], kw["im%d" % (k + 1)]), "picture", "the picture of camera %d is not shown" % k)
        else:
            ctx.check(not pictures, "picture", "a picture is shown for camera %d, which has none" % k)
        lines = [np.asarray(line.get_xydata(), dtype=float) for line in ax.lines]
        texts = [(np.array(t.get_position(), dtype=float), t.get_text()) for t in ax.texts]
        dist, cond = epipolar_distance(specs[1 - k], specs[k], others, own)
        for i in range(n):
            dots = [m for m, p in enumerate(lines) if len(p) == 1 and np.abs(p[0] - own[i]).max() < 1e-9]
            ctx.check(len(dots) >= 1, "epipolar-line", "the point %s is not shown in its picture" % own[i])
            # the image of the line of sight of the other camera
            d = ref.ray(specs[1 - k], others[i][None])[0]
            t = np.arange(-10000, 10000, 100.0)
            pts = ref.position(specs[1 - k]) + t[:, None] * d
            q = ref.camera_from_space(specs[k], pts)
            im = ref.project(specs[k], q)
            good = (np.abs(q[:, 2]) > 0.1) & (np.abs(im).max(-1) < 1e5)
            shown = [p for p in lines if len(p) > 5]
            ok = False
            for p in shown:
                # all drawn points are on the epipolar line
                with np.errstate(all="ignore"):
                    pd, pc = line_distance(specs[1 - k], specs[k], others[i], p)
                usable = np.isfinite(p).all(-1) & (np.abs(p).max(-1) < 1e6)
                ok |= bool(pc and usable.sum() >= 20 and (np.abs(pd) < 1e-3 + 1e-7 * np.abs(p).max(-1))[usable].all())
            if cond[i] and good.sum() > 20:
                ctx.check(ok, "epipolar-line", "no line in the picture is the line of sight of the point in the other camera", specs=specs, point=own[i], other=others[i])
            if cond[i] and np.isfinite(dist[i]) and np.abs(im[good]).max() < 1e5 and np.ptp(im[:2], axis=0).max() > 1e-6:
                # written and drawn distance; the code takes it from the two farthest points, which are close to each other in the image
                rel = np.ptp(im[:2], axis=0).max()
                err = 1e-9 * (np.abs(im[0] - own[i]).max() + 1) / rel * np.abs(im).max()
                if err < 0.02:
                    text = [float(v) for p, v in texts if np.abs(p - own[i]).max() < 1e-9]
                    ctx.check(len(text) >= 1 and min(abs(v - dist[i]) for v in text) <= 0.0501 + err + 1e-3 * dist[i], "epipolar-text", "the distance to the epipolar line is %s, the picture says %s" % (dist[i], text), specs=specs)
                    feet = [p for p in lines if len(p) == 2 and np.abs(p[0] - own[i]).max() < 1e-9]
                    ctx.check(len(feet) >= 1 and min(abs(np.linalg.norm(p[1] - p[0]) - dist[i]) for p in feet) <= err + 1e-3 * dist[i] + 1e-3, "epipolar-foot", "the dashed line to the epipolar line is not as long as the distance %s" % dist[i])
            ctx.seen("my-epilines", specs[0]["orient"], specs[1]["orient"], noise, n, bool(kw))
    plt.close("all")


def line_distance(s_from, s_to, p_from, pts):
    """ signed distances of image points to the image of a line of sight """
    e, o = ref.ray(s_from, p_from[None])[0], ref.position(s_from)
    n = np.cross(e, ref.position(s_to) - o)
    if np.linalg.norm(n) < 1e-3 * np.linalg.norm(ref.position(s_to) - o):
        return np.zeros(len(pts)), False
    m = ref.rotation(s_to) @ (n / np.linalg.norm(n))
    la, lb = m[0] / s_to["fx"], -m[1] / s_to["fy"]
    lc = -la * s_to["cx"] - lb * s_to["cy"] - m[2]
    k = np.hypot(la, lb)
    return (la * pts[:, 0] + lb * pts[:, 1] + lc) / k, k > 1e-9


def cv_epipolar(ctx):
    """ the lines from the fundamental matrix of OpenCV """
    import matplotlib.pyplot as plt
    from rtm.props.c13 import stereo_specs, make_group
    specs, target = stereo_specs(ctx, plain=True)
    p = target + ctx.rng.normal(size=(200, 3)) * 3
    ok = np.ones(len(p), dtype=bool)
    for s in specs:
        q = ref.camera_from_space(s, p)
        im = ref.image_from_space(s, p)
        ok &= (q[:, 2] < -0.5) & (im > 5).all(-1) & (im < np.array([s["w"], s["h"]]) - 5).all(-1)
    x = p[ok][:40]
    if len(x) < 20:
        from rtm.core import Skip
        raise Skip()
    g = ctx.call("CameraGroup", make_group, specs)
    a, b = [np.asarray(v, dtype=float) for v in g.imagesFromSpace(x)]
    import cv2
    cv2.setRNGSeed(1)
    F, mask = cv2.findFundamentalMat(a, b)
    if F is None or F.shape != (3, 3):
        from rtm.core import Skip
        raise Skip()
    plt.close("all")
    cv2.setRNGSeed(1)
    shown = [np.full((specs[i]["h"], specs[i]["w"]), int(ctx.rng.integers(0, 256)), dtype=np.uint8) for i in range(2)]
    ctx.call("plotEpilines", g.plotEpilines, a, b, *shown)
    axes = plt.gcf().axes
    ctx.check(len(axes) == 2, "epipolar-line", "%d pictures for two cameras" % len(axes))
    good_f = all(np.abs(np.sum(np.c_[v, np.ones(len(v))] * cv2.computeCorrespondEpilines(u, w, F)[:, 0], -1)).max() < 0.5 for u, v, w in ((a, b, 1), (b, a, 2)))
    for ax, k, own in zip(axes, (0, 1), (a, b)):
        s = specs[k]
        ctx.check(len(ax.images) == 1 and np.array_equal(np.asarray(ax.images[0].get_array()), shown[k]), "picture", "the picture of camera %d is not shown" % k)
        lines = [np.asarray(line.get_xydata(), dtype=float) for line in ax.lines]
        for pt in own:
            ctx.check(any(len(p) == 1 and np.abs(p[0] - pt).max() < 1e-9 for p in lines), "epipolar-line", "the point %s is not shown" % pt)
            if good_f:
                # a line across the image which passes the point
                def dist(p):
                    d = p[1] - p[0]
                    return abs(d[0] * (pt - p[0])[1] - d[1] * (pt - p[0])[0]) / max(np.linalg.norm(d), 1e-9)
                across = [p for p in lines if len(p) == 2]
                ctx.check(any(dist(p) < 1 for p in across), "epipolar-line", "no epipolar line passes the point %s" % pt, specs=specs)
        for p in lines:
            if len(p) == 2:
                on = (np.abs(p) < 1e-6) | (np.abs(p - [s["w"], s["h"]]) < 1e-6)
                ctx.check(on.any(-1).all(), "epipolar-line", "an epipolar line does not end at the border of the image: %s" % p)
        # the other camera
        o = ref.position(specs[1 - k])[None]
        q = ref.camera_from_space(s, o)[0]
        if q[2] < -0.5:
            im = ref.project(s, ref.camera_from_space(s, o))[0]
            ctx.check(any(len(p) == 1 and np.abs(p[0] - im).max() < 1e-6 * (1 + np.abs(im).max()) for p in lines), "epipolar-line", "the position of the other camera is not shown at %s" % im)
        ctx.seen("epilines", specs[0]["orient"], specs[1]["orient"], bool(q[2] < 0), good_f)
    plt.close("all")


SCENARIOS = dict(views=(views, 300, 4000), render=(render, 160, 2500), epipolar=(epipolar, 220, 3000), cv_epipolar=(cv_epipolar, 80, 1000))
