"""C11 top views and undistorted images"""
import numpy as np

from rtm import gen, ref

RULE = ("histories of pictures made with one or several cameras while parameters, extent, scaling, height and image change in between; "
        "distinct = (function, projection, lens, image type, what changed before the call, extent given, hide_backpoints)")
ASSUMPTIONS = ["pixels whose source position is closer than 0.02 pixels to the border between two source pixels are not judged", "pictures of cv2.remap with nearest neighbours, as documented by the code",
               "image size below 32767 pixels (limit of cv2.remap)"]
REQUIRE = {"judged:top.pixels": 2000, "judged:undistort.pixels": 1500, "pixels:top.inside": 100000, "pixels:top.outside": 50000, "pixels:undistort.inside": 100000, "judged:size-check": 100,
           "judged:repeat": 300, "judged:plot-extent": 100, "change:orientation": 200, "change:projection": 200, "change:lens": 100, "change:extent": 200, "change:scaling": 200, "change:Z": 200, "change:alias": 100, "pictures:big": 25}
KINDS = ["gray8", "gray8", "gray16", "float32", "float64", "int16", "rgb", "rgb", "rgba", "rgb16", "rgbfloat"]


def make_image(ctx, w, h, kind):
    y, x = np.mgrid[:h, :w]
    if kind == "gray8":
        im = ctx.rng.integers(1, 256, (h, w)).astype(np.uint8)
    elif kind == "gray16":
        im = ((1 + y * w + x) % 65535 + 1).astype(np.uint16)
    elif kind == "int16":
        im = ctx.rng.integers(1, 32767, (h, w)).astype(np.int16)
    elif kind == "float32":
        im = (1 + y * w + x).astype(np.float32)
    elif kind == "float64":
        im = (1.25 + y * w + x).astype(np.float64)
    else:
        im = np.stack([x % 251, y % 241, ctx.rng.integers(1, 256, (h, w))], -1).astype(dict(rgb16=np.uint16, rgbfloat=np.float32).get(kind, np.uint8))
        if kind == "rgba":
            im = np.dstack([im, ctx.rng.integers(1, 256, (h, w)).astype(np.uint8)])
    if ctx.chance(0.1):
        im = np.ascontiguousarray(im[::-1])[::-1]
    elif ctx.chance(0.1):
        im = np.asfortranarray(im) if im.ndim == 2 else im
    return im


def ground_extent(ctx, s, Z):
    """ an extent with something to see """
    p = gen.image_points(ctx, s, 40, inside=True)
    p = p[ref.valid_image(s, p)]
    if len(p) == 0:
        return None
    d = ref.ray(s, p)
    with np.errstate(all="ignore"):
        t = (Z - s["elev"]) / d[:, 2]
    g = (ref.position(s) + d * t[:, None])[(t > 1e-3) & (t < 3000)]
    if len(g) < 3:
        return None
    g = g[ctx.rng.permutation(len(g))[:int(ctx.rng.integers(3, 12))]]
    e = [g[:, 0].min(), g[:, 0].max(), g[:, 1].min(), g[:, 1].max()]
    m = max(e[1] - e[0], e[3] - e[2], 1e-2) * ctx.pick([0, 0.1, 0.5])
    e = [e[0] - m, e[1] + m, e[2] - m, e[3] + m]
    if ctx.chance(0.2):
        # everything around the camera
        r = float(ctx.rng.uniform(1, 60))
        e = [s["x"] - r, s["x"] + r, s["y"] - r, s["y"] + r]
    if ctx.chance(0.4):
        e = [float(np.floor(e[0])), float(np.ceil(e[1] + 0.5)), float(np.floor(e[2])), float(np.ceil(e[3] + 0.5))]
    if min(e[1] - e[0], e[3] - e[2]) < 1e-3:
        return None
    return [float(v) for v in e]


def steps(ctx, lo, hi, scaling, length, what):
    """ the coordinates of the pixels of one axis """
    n = (hi - lo) / scaling
    ok = [int(np.ceil(n))]
    if abs(n - np.round(n)) < 1e-6 * max(n, 1):
        ok = [int(np.round(n)), int(np.round(n)) + 1]
    ctx.check(length in ok, "shape", "%d pixels from %s to %s in steps of %s" % (length, lo, hi, scaling), expected=ok, what=what)
    return lo + np.arange(length) * scaling


def judge(ctx, name, image, out, pos, sure, spec, info):
    """ compare a picture with the source positions of its pixels """
    h, w = image.shape[:2]
    color = image.ndim == 3
    ctx.check(out.dtype == image.dtype and out.ndim == image.ndim and (not color or out.shape[2] == 4), name + ".kind", "a picture of kind %s %s from an image %s %s" % (
        out.shape, out.dtype, image.shape, image.dtype))
    with np.errstate(all="ignore"):
        k = np.round(pos)
        near = np.abs(np.abs(pos - np.floor(pos)) - 0.5).min(-1) < 0.02
    near = near & np.isfinite(pos).all(-1)
    k = np.where(np.isfinite(k), k, -99)
    inside = (k[..., 0] >= 0) & (k[..., 0] < w) & (k[..., 1] >= 0) & (k[..., 1] < h)
    judged = sure & ~near
    xi, yi = np.clip(k[..., 0], 0, w - 1).astype(int), np.clip(k[..., 1], 0, h - 1).astype(int)
    want = image[yi, xi]
    if color:
        if image.shape[2] == 3:
            want = np.concatenate([want, np.full(want.shape[:-1] + (1,), 255, want.dtype)], -1)
        same = (out == want).all(-1)
        empty = out[..., 3] == 0
    else:
        same, empty = out == want, out == 0
    wrong = judged & np.where(inside, ~same, ~empty)
    ctx.count["pixels:%s.inside" % name] += int((judged & inside).sum())
    ctx.count["pixels:%s.outside" % name] += int((judged & ~inside).sum())
    if wrong.any():
        r, c = np.argwhere(wrong)[0]
        ctx.fail(name + ".pixels", "%d of %d pixels of the picture are wrong, e.g. row %d, column %d: %s, it should be %s" % (
            wrong.sum(), judged.sum(), r, c, out[r, c], want[r, c] if inside[r, c] else "empty"), source=pos[r, c], spec=spec, **info)
    ctx.count["judged:%s.pixels" % name] += 1
    return int((judged & inside).sum())


def top(ctx, cam, s, image, extent, scaling, Z, hide, given, skip=False):
    kw = {}
    if extent is not None:
        kw["extent"] = given
    if scaling is not None:
        kw["scaling"] = scaling
    if Z != 0 or ctx.chance(0.3):
        kw["Z"] = Z
    if not hide or ctx.chance(0.2):
        kw["hide_backpoints"] = hide
    if skip:
        kw["skip_size_check"] = True
    plot = extent is None or ctx.chance(0.03)
    if plot:
        import matplotlib.pyplot as plt
        plt.close("all")
        kw["do_plot"] = True
        if ctx.chance(0.3):
            kw["alpha"] = 0.5
    before = image.copy()
    out = np.asarray(ctx.call("getTopViewOfImage", cam.getTopViewOfImage, image, **kw))
    ctx.check(np.array_equal(before, image), "image-kept", "getTopViewOfImage changed the image")
    info = dict(extent=extent, scaling=scaling, Z=Z, hide=hide, log=ctx.log[-6:])
    if plot:
        ax = plt.gca()
        e = [float(v) for v in ax.images[-1].get_extent()]
        plt.close("all")
        if ctx.chance(0.3):
            again = np.asarray(ctx.call("getTopViewOfImage", cam.getTopViewOfImage, image, **kw))
            ctx.check(np.array_equal(again, out) and np.allclose(plt.gca().images[-1].get_extent(), e, rtol=1e-12, atol=0), "repeat", "the same picture plotted again differs")
            plt.close("all")
        if extent is None:
            ctx.count["default-extent"] += 1
            extent = e
            # the guessed extent holds all of the visible ground
            p = gen.image_points(ctx, s, 50, inside=True)
            d = ref.ray(s, p)
            g = ref.position(s) + d * ((Z - s["elev"]) / d[:, 2])[:, None]
            m = 0.02 * max(e[1] - e[0], e[3] - e[2])
            ctx.check(np.all((g[:, 0] >= e[0] - m) & (g[:, 0] <= e[1] + m) & (g[:, 1] >= e[2] - m) & (g[:, 1] <= e[3] + m)), "default-extent",
                      "visible ground points are outside of the guessed extent %s" % e, ground=g[:5], spec=s)
            size = np.ptp(g, axis=0)[:2].max()
            ctx.check(max(e[1] - e[0], e[3] - e[2]) < 60 * size + 1e-3, "default-extent", "the guessed extent %s is much larger than the visible ground" % e, ground=g[:5], spec=s)
        else:
            ctx.check(np.abs(np.array(e) - extent).max() < 1e-9 * (1 + np.abs(extent).max()), "plot-extent", "the picture is plotted in %s and not in %s" % (e, extent))
    sc = scaling
    if sc is None:
        sc = np.sqrt((extent[1] - extent[0]) * (extent[3] - extent[2]) / (s["w"] * s["h"]))
    x = steps(ctx, extent[0], extent[1], sc, out.shape[1], "x")
    y = steps(ctx, extent[2], extent[3], sc, out.shape[0], "y")[::-1]
    gx, gy = np.meshgrid(x, y)
    pts = np.stack([gx, gy, np.full_like(gx, Z)], -1).reshape(-1, 3)
    pos = ref.image_from_space(s, pts)
    q = ref.camera_from_space(s, pts)
    mag = 1e-9 * (np.abs(pts).max(-1) + np.abs(ref.position(s)).max() + 1)
    sure = (ref.image_tolerance(s, pts) < 5e-3) & (np.abs(q[:, 2]) > mag)
    sure |= np.isfinite(pos).all(-1) & (np.abs(pos).max(-1) > 1e5) & (np.abs(q[:, 2]) > mag) & (s["proj"] == "rect")
    if s["proj"] == "rect":
        if hide:
            pos[q[:, 2] > 0] = np.nan
    else:
        sure &= ~((np.abs(q[:, 0]) <= mag) & (q[:, 2] > 0)) & (np.hypot(q[:, 0], q[:, 2]) > mag)
    n = judge(ctx, "top", image, out, pos.reshape(gx.shape + (2,)), sure.reshape(gx.shape), s, info)
    return out, n


def undistort(ctx, cam, s, image, extent, scaling, given):
    kw = {}
    if extent is not None:
        kw["extent"] = given
    if scaling is not None:
        kw["scaling"] = scaling
    e = extent if extent is not None else [0, s["w"], 0, s["h"]]
    before = image.copy()
    out = np.asarray(ctx.call("undistortImage", cam.undistortImage, image, **kw))
    if ctx.chance(0.06):
        # plotted (once or again), the picture is the same and in image coordinates: the first row at the upper end of the extent, y pointing down
        import matplotlib.pyplot as plt
        for _ in range(int(ctx.rng.integers(1, 4))):
            plt.close("all")
            again = np.asarray(ctx.call("undistortImage", cam.undistortImage, image, do_plot=True, **kw))
            shown = [float(v) for v in plt.gca().images[-1].get_extent()]
            plt.close("all")
            ctx.check(np.array_equal(again, out), "repeat", "the same picture asked again differs")
            ctx.check(np.abs(np.array(shown) - [e[0], e[1], e[3] - 1, e[2] - 1]).max() < 1e-9 * (1 + np.abs(e).max()) or
                      np.abs(np.array(shown) - [e[0], e[1], e[3], e[2]]).max() <= 1 + 1e-9, "plot-extent", "the picture is plotted in %s for an extent of %s" % (shown, e))
    ctx.check(np.array_equal(before, image), "image-kept", "undistortImage changed the image")
    x = steps(ctx, e[0], e[1], scaling or 1, out.shape[1], "x")
    y = steps(ctx, e[2], e[3], scaling or 1, out.shape[0], "y")
    gx, gy = np.meshgrid(x, y)
    pos = ref.distort(s, np.stack([gx, gy], -1))
    sure = np.isfinite(pos).all(-1)
    n = judge(ctx, "undistort", image, out, pos, sure, s, dict(extent=extent, scaling=scaling, log=ctx.log[-6:]))
    return out, n


def change(ctx, cam, s):
    """ change one parameter of the camera and of its description """
    options = ["elev", "x", "y", "roll", "tilt", "heading", "fx", "fy", "cx", "cy"]
    if s["orient"] == "ypr":
        options = [dict(tilt="pitch", heading="yaw").get(o, o) for o in options]
    if s["lens"] != "none":
        options += ["k", "k", "k"]
    key = ctx.pick(options)
    if key == "k":
        k = list(s["k"])
        i = int(ctx.rng.integers(3))
        k[i] = float(ctx.rng.uniform(0, 0.1))
        s["k"] = tuple(k)
        name = (("k1", "k2", "k3") if s["lens"] == "brown" else ("a", "b", "c"))[i]
        setattr(ctx.pick([cam, cam.lens]), name, k[i])
        group = "lens"
    else:
        delta = dict(elev=5.0, x=5.0, y=5.0, roll=10.0, tilt=10.0, pitch=10.0, heading=30.0, yaw=30.0, fx=s["fx"] * 0.2, fy=s["fy"] * 0.2, cx=s["w"] * 0.1, cy=s["h"] * 0.1)[key]
        v = float(s[key] + ctx.rng.normal() * delta * ctx.pick([1, 1, 0.2]))
        if key in ("elev", "fx", "fy"):
            v = abs(v) + 0.5
        s[key] = v
        part = cam.projection if key in ("fx", "fy", "cx", "cy") else cam.orientation
        setattr(ctx.pick([cam, part]), gen.NAMES[key], v)
        group = "projection" if part is cam.projection else "orientation"
    ctx.note(change=key, value=s[key])
    ctx.count["change:" + group] += 1
    return group


def history(ctx):
    s = gen.spec(ctx, small=True, moderate=True)
    if ctx.chance(0.05):
        s["w"], s["h"] = 320, 240
        s["cx"], s["cy"], s["fx"], s["fy"] = 160.0, 120.0, 300.0, 300.0
    if ctx.chance(0.15):
        # metric coordinates of a map
        s["x"], s["y"] = s["x"] + 5e5, s["y"] + 4.2e6
    cam = ctx.call("Camera", gen.make_camera, s)
    image = make_image(ctx, s["w"], s["h"], ctx.pick(KINDS))
    Z, hide, scaling = 0.0, True, None
    extent = ground_extent(ctx, s, Z)
    if extent is None:
        from rtm.core import Skip
        raise Skip()
    area = lambda e: (e[1] - e[0]) * (e[3] - e[2])
    uextent, uscaling = None, None
    given = list(extent)
    used = 0
    last = {}
    for step in range(int(ctx.rng.integers(2, 7))):
        what = "first"
        if step:
            what = ctx.pick(["parameter", "parameter", "parameter", "extent", "scaling", "Z", "hide", "image", "nothing", "alias", "two"])
            ctx.note(step=step, what=what)
            if what in ("parameter", "two"):
                what = change(ctx, cam, s)
                if ctx.chance(0.2):
                    change(ctx, cam, s)
            elif what == "extent":
                e = ground_extent(ctx, s, Z)
                if ctx.chance(0.4):
                    # next to the last one
                    k = ctx.pick([[1, 1, 0, 0], [0, 0, 1, 1], [0, 1, 0, 0], [0, 0, 0, 1], [-1, 0, 0, 0], [0, 0, -1, 0]])
                    d = max(extent[1] - extent[0], extent[3] - extent[2]) * float(ctx.rng.uniform(0.05, 0.4))
                    e = [float(v + d * m) for v, m in zip(extent, k)]
                if e is not None:
                    extent = e
                    given = ctx.pick([list, tuple, np.array])(extent)
                uextent = ctx.pick([None, [0, s["w"] // 2, 0, s["h"]], [-5, s["w"] + 5, 3, s["h"] + 2], [1.5, s["w"] - 2.0, 0.25, s["h"] / 2]])
            elif what == "scaling":
                scaling = float(np.sqrt(area(extent) / ctx.rng.uniform(50, 4000))) if ctx.chance(0.8) else None
                uscaling = ctx.pick([None, 1, 2, 0.5, 0.7, 3])
            elif what == "Z":
                Z = float(ctx.pick([0, 1, -2, 0.5])) if ctx.chance(0.7) else int(ctx.rng.integers(-3, 2))
            elif what == "hide":
                hide = not hide
            elif what == "image":
                image = make_image(ctx, s["w"], s["h"], ctx.pick(KINDS))
            elif what == "alias":
                # the caller changes the list which was handed over before
                if isinstance(given, (list, np.ndarray)):
                    given[0] += 1.0
                    given[1] += 1.0
                    extent = [float(v) for v in given]
            ctx.count["change:" + what] += what not in ("orientation", "projection", "lens")
        if scaling is not None and not 20 < area(extent) / scaling ** 2 < 20000:
            scaling = float(np.sqrt(area(extent) / 1000))
        if ctx.chance(0.65):
            out, n = top(ctx, cam, s, image, extent, scaling, Z, hide, given)
            key = "top"
            ctx.seen("top", s["proj"], s["lens"], s["orient"], image.ndim, str(image.dtype), what, scaling is None, hide, Z != 0, n > 0)
        else:
            out, n = undistort(ctx, cam, s, image, uextent, uscaling, uextent)
            key = "undistort"
            ctx.seen("undistort", s["proj"], s["lens"], image.ndim, str(image.dtype), what, uscaling, uextent is None)
        used += n
        if what == "nothing" and key in last and last[key][0] == step - 1:
            ctx.check(np.array_equal(last[key][1], out), "repeat", "the same picture asked again differs")
        if ctx.chance(0.1):
            again = cam.getTopViewOfImage(image, extent=given, scaling=scaling, Z=Z, hide_backpoints=hide) if key == "top" else cam.undistortImage(image, extent=uextent, scaling=uscaling)
            ctx.check(np.array_equal(again, out), "repeat", "the same picture asked again differs")
        last[key] = (step, out.copy())
        if ctx.chance(0.2):
            out[...] = 0  # the picture belongs to the caller
    ctx.sample(spec=s, extent=extent, pixels=used)


def default_extent(ctx):
    """ nothing given: the visible ground """
    s = gen.spec(ctx, proj="rect", small=True, moderate=True)
    k = "pitch" if s["orient"] == "ypr" else "tilt"
    s[k] = float(ctx.rng.uniform(0, 40)) - (90 if k == "pitch" else 0)
    s["fx"] = s["fy"] = max(s["w"], s["h"]) * float(ctx.rng.uniform(1, 2))
    s["cx"], s["cy"] = s["w"] / 2, s["h"] / 2
    border = np.array([[a, b] for a in (0, s["w"] / 2, s["w"]) for b in (0, s["h"] / 2, s["h"])])
    if not ref.valid_image(s, border).all() or (ref.ray(s, border)[:, 2] > -0.15).any():
        from rtm.core import Skip
        raise Skip()
    cam = ctx.call("Camera", gen.make_camera, s)
    image = make_image(ctx, s["w"], s["h"], ctx.pick(KINDS))
    for _ in range(2):
        Z = ctx.pick([0.0, 0.0, 1.0, -3.0])
        out, n = top(ctx, cam, s, image, None, None, Z, True, None)
        ctx.check(n > 0.02 * out.shape[0] * out.shape[1], "default-extent", "only %d pixels of a %s picture show the image" % (n, out.shape), spec=s)
        ctx.check(abs(np.log(out.shape[0] * out.shape[1] / (s["w"] * s["h"]))) < 0.5, "default-extent", "the picture has %s pixels, the image %s" % (out.shape, image.shape))
        s["elev"] = float(ctx.rng.uniform(3, 50))
        cam.elevation_m = s["elev"]


def sizes(ctx):
    s = gen.spec(ctx, small=True, moderate=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    dw, dh = ctx.pick([(1, 0), (0, 1), (-1, 0), (0, -1), (3, -2)])
    image = make_image(ctx, s["w"] + dw, s["h"] + dh, ctx.pick(KINDS))
    extent = [s["x"] - 5, s["x"] + 5, s["y"], s["y"] + 10]
    for f, kw in ((cam.getTopViewOfImage, dict(extent=extent, scaling=0.5)), (cam.undistortImage, {})):
        try:
            f(image, **kw)
            ok = False
        except Exception:
            ok = True
        ctx.check(ok, "size-check", "an image of %s was accepted by a camera of %d x %d" % (image.shape, s["w"], s["h"]))
    ctx.call("undistortImage", cam.undistortImage, image, skip_size_check=True)
    top(ctx, cam, s, image, extent, 0.5, 0.0, True, extent, skip=True)


def two_cameras(ctx):
    """ pictures of several cameras in turn, also with shared components """
    c = gen.ct()
    s1, s2 = gen.spec(ctx, small=True, moderate=True), gen.spec(ctx, small=True, moderate=True)
    cams = [ctx.call("Camera", gen.make_camera, s) for s in (s1, s2)]
    specs = [s1, s2]
    shared = ctx.chance(0.4)
    if shared:
        # the second camera uses the projection of the first
        cams[1] = ctx.call("Camera", c.Camera, cams[0].projection, gen.make_orientation(s2), gen.make_lens(s2))
        s2.update({k: s1[k] for k in ("proj", "w", "h", "fx", "fy", "cx", "cy")})
    images = [make_image(ctx, s["w"], s["h"], ctx.pick(KINDS)) for s in specs]
    extents = [ground_extent(ctx, s, 0.0) for s in specs]
    for step in range(4):
        i = int(ctx.rng.integers(2))
        if ctx.chance(0.5):
            g = change(ctx, cams[i], specs[i])
            if g == "projection" and shared:
                specs[1 - i].update({k: specs[i][k] for k in ("fx", "fy", "cx", "cy")})
            i = int(ctx.rng.integers(2))
        if extents[i] is not None and ctx.chance(0.7):
            top(ctx, cams[i], specs[i], images[i], extents[i], None, 0.0, True, extents[i])
        else:
            undistort(ctx, cams[i], specs[i], images[i], None, None, None)
        ctx.seen("two", shared, specs[i]["proj"], specs[i]["lens"])


def big(ctx):
    """ pictures with many pixels """
    s = gen.spec(ctx, small=True, moderate=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    image = make_image(ctx, s["w"], s["h"], ctx.pick(KINDS))
    extent = ground_extent(ctx, s, 0.0)
    if extent is None:
        from rtm.core import Skip
        raise Skip()
    n = gen.huge_batch(ctx, 400000)
    if ctx.chance(0.7):
        if ctx.chance(0.5):
            # a close look
            m, r = [(extent[0] + extent[1]) / 2, (extent[2] + extent[3]) / 2], float(ctx.rng.uniform(0.2, 2))
            extent = [m[0] - r, m[0] + r, m[1] - r, m[1] + r]
        scaling = float(np.sqrt((extent[1] - extent[0]) * (extent[3] - extent[2]) / n))
        if max(extent[1] - extent[0], extent[3] - extent[2]) / scaling > 20000:
            return
        top(ctx, cam, s, image, extent, scaling, ctx.pick([0.0, 0.0, 0.5]), True, extent)
    else:
        scaling = float(np.sqrt(s["w"] * s["h"] / n))
        undistort(ctx, cam, s, image, None, scaling, None)
    ctx.count["pictures:big"] += 1
    ctx.seen("big", s["proj"], s["lens"], n // 50000)


SCENARIOS = dict(big=(big, 60, 600), history=(history, 1500, 30000), default_extent=(default_extent, 120, 1500), sizes=(sizes, 150, 800), two_cameras=(two_cameras, 300, 5000))
