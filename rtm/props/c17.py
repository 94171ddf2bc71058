"""C17 construction of projections and fields of view"""
import numpy as np

from rtm import gen, ref

RULE = ("random combinations of all constructor arguments (complete, contradictory and missing ones) of all projections against a reference table, fields of view as angles between rays, "
        "and conversions after changes of the projection; distinct = (projection, set of given arguments, accepted or rejected)")
ASSUMPTIONS = ["an argument with the value 0 is not judged as given", "for a decentred optical axis the field of view is that of the same projection with the axis in the middle"]
REQUIRE = {"judged:built": 15000, "judged:rejected": 1500, "judged:angle": 2000, "judged:convert": 4000, "judged:later": 3000, "judged:default-sensor": 300, "judged:image-object": 300}


def focal_of(proj, axis, size, view):
    v = np.deg2rad(view)
    if proj == "rect" or (proj == "cyl" and axis == "y"):
        return size / 2 / np.tan(v / 2)
    return size / v


def view_of(proj, axis, size, f):
    if proj == "rect" or (proj == "cyl" and axis == "y"):
        return np.rad2deg(2 * np.arctan2(size / 2, f))
    return np.rad2deg(size / f)


def size_of(proj, axis, f, view):
    return f * 1.0 / focal_of(proj, axis, 1.0, view)


def expected(proj, kw, dims):
    """ the values that a description means, or None if it is contradictory or incomplete """
    if "image" in kw and ("image_width_px" in kw or "image_height_px" in kw):
        return None
    if "image" not in kw and not ("image_width_px" in kw and "image_height_px" in kw):
        return None
    w, h = dims if "image" in kw else (kw["image_width_px"], kw["image_height_px"])
    if "center" in kw and ("center_x_px" in kw or "center_y_px" in kw):
        return None
    cx, cy = kw.get("center", (kw.get("center_x_px", w / 2), kw.get("center_y_px", h / 2)))
    f, fx, fy = kw.get("focallength_px"), kw.get("focallength_x_px"), kw.get("focallength_y_px")
    if f is not None and (fx is not None or fy is not None):
        return None
    if "focallength_mm" in kw and (f is not None or fx is not None or fy is not None):
        return None
    if f is not None:
        fx, fy = f if np.ndim(f) else (f, f)
    if "sensor" in kw and ("sensor_width_mm" in kw or "sensor_height_mm" in kw):
        return None
    sw, sh = kw.get("sensor", (kw.get("sensor_width_mm"), kw.get("sensor_height_mm")))
    if sw is not None and sh is None:
        sh = sw * h / w
    if sh is not None and sw is None:
        sw = sh * w / h
    if "focallength_mm" in kw:
        if sw is None or sh is None:
            return None
        fx, fy = kw["focallength_mm"] * w / sw, kw["focallength_mm"] * h / sh
    vx, vy = kw.get("view_x_deg"), kw.get("view_y_deg")
    gx, gy = fx, fy
    if vx is not None:
        if fx is not None:
            return None
        gx = focal_of(proj, "x", w, vx)
    if vy is not None:
        if fy is not None:
            return None
        gy = focal_of(proj, "y", h, vy)
    if gx is None and vy is not None:
        gx = gy
    if gy is None and vx is not None:
        gy = gx
    if gx is None or gy is None:
        return None
    out = dict(image_width_px=w, image_height_px=h, center_x_px=cx, center_y_px=cy, focallength_x_px=gx, focallength_y_px=gy)
    if sw is not None:
        out["sensor_width_mm"], out["sensor_height_mm"] = sw, sh
    return out


def description(ctx, proj, valid):
    rng = ctx.rng
    w, h = gen.image_size(ctx)
    dims = (w, h)
    kw = {}
    if valid:
        # every part described in one of the possible ways
        if ctx.chance(0.6):
            kw["image"] = ctx.pick([(w, h), [w, h]])
            if ctx.chance(0.15):
                w, h = dims = int(rng.integers(8, 200)), int(rng.integers(8, 200))
                kw["image"] = np.zeros((h, w) + ctx.pick([(), (3,), (4,), (1,)]), dtype=ctx.pick([np.uint8, float, bool]))
        else:
            kw["image_width_px"], kw["image_height_px"] = w, h
        u = rng.integers(5)
        if u == 0:
            kw["center"] = ctx.pick([tuple, list])(float(v) for v in rng.uniform(0.2, 0.8, 2) * [w, h])
        elif u == 1:
            kw["center_x_px"] = float(rng.uniform(0.2, 0.8) * w)
            if ctx.chance(0.5):
                kw["center_y_px"] = float(rng.uniform(0.2, 0.8) * h)
        elif u == 2 and ctx.chance(0.5):
            # on the border of the image (an explicit 0 is a value)
            m = rng.integers(3)
            if m == 0:
                kw["center"] = ctx.pick([tuple, list])([ctx.pick([0, 0.0, w, w / 3]), ctx.pick([0, 0.0, h, h / 3])])
            else:
                kw[("center_x_px", "center_y_px")[m - 1]] = ctx.pick([0, 0.0, h, 1e-9])
        u = rng.integers(8)
        vx, vy = views(ctx, proj)
        fx, fy = [float(np.exp(rng.uniform(np.log(0.3), np.log(5))) * max(w, h)) for _ in range(2)]
        if ctx.chance(0.2):
            fx, fy = float(int(fx) + 1), float(int(fy) + 1)
        if u == 0:
            kw["focallength_px"] = fx
        elif u == 1:
            kw["focallength_px"] = ctx.pick([tuple, list])([fx, fy])
        elif u == 2:
            kw["focallength_x_px"], kw["focallength_y_px"] = fx, fy
        elif u == 3:
            kw["focallength_mm"] = float(rng.uniform(2, 400))
        elif u == 4:
            kw["view_x_deg"] = vx
        elif u == 5:
            kw["view_y_deg"] = vy
        elif u == 6:
            kw["view_x_deg"], kw["view_y_deg"] = vx, vy
        else:
            a, b = ctx.pick([("focallength_x_px", "view_y_deg"), ("focallength_y_px", "view_x_deg")])
            kw[a], kw[b] = fx, (vy if b == "view_y_deg" else vx)
        if u == 3 or ctx.chance(0.3):
            sw, sh = [float(v) for v in rng.uniform(2, 40, 2)]
            m = rng.integers(5)
            if m <= 1:
                kw["sensor"] = ctx.pick([tuple, list])([sw, sh])
            elif m == 2:
                kw["sensor_width_mm"] = sw
            elif m == 3:
                kw["sensor_height_mm"] = sh
            else:
                kw["sensor_width_mm"], kw["sensor_height_mm"] = sw, sh
    else:
        vx, vy = views(ctx, proj)
        every = dict(image=(w, h), image_width_px=w, image_height_px=h, center=(w / 3, h / 3), center_x_px=w / 4, center_y_px=h / 4, focallength_px=1.1 * w, focallength_x_px=1.2 * w,
                     focallength_y_px=1.3 * w, focallength_mm=14.0, sensor=(17.3, 9.7), sensor_width_mm=10.0, sensor_height_mm=9.0, view_x_deg=vx, view_y_deg=vy)
        kw, dims, _ = description(ctx, proj, True)
        for _ in range(int(rng.integers(1, 3))):
            if ctx.chance(0.6) or not kw:
                k = ctx.pick(list(every))
                kw[k] = every[k]
                if k == "image":
                    dims = (w, h)
            else:
                kw.pop(ctx.pick(list(kw)))
    return kw, dims, None


def views(ctx, proj):
    hx, hy = dict(rect=(170, 170), cyl=(360, 170), equi=(360, 180))[proj]
    out = []
    for hi, special in ((hx, [61.617, 90, 360, 180, 1e-3]), (hy, [48.192, 90, 45, 179, 170])):
        v = float(ctx.pick(special)) if ctx.chance(0.2) else float(ctx.rng.uniform(0.5, hi))
        out.append(min(v, hi))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-12)


def judge_values(ctx, obj, want, mech, kw):
    for k, v in want.items():
        got = getattr(obj, k)
        ctx.check(np.ndim(got) == 0 and close(float(got), float(v)), mech, "%s is %s and not %s" % (k, got, v), arguments={k: (v if np.size(v) < 5 else np.shape(v)) for k, v in kw.items()})


def judge_view(ctx, proj, p, want, mech):
    w, h, fx, fy = [want[k] for k in ("image_width_px", "image_height_px", "focallength_x_px", "focallength_y_px")]
    got = ctx.call("getFieldOfView", p.getFieldOfView)
    for g, v in zip(got, (view_of(proj, "x", w, fx), view_of(proj, "y", h, fy))):
        ctx.check(close(float(g), v), mech, "the field of view is %s and not %s" % (g, v), want=want)
    return got


def construct(ctx):
    proj = ctx.pick(["rect", "cyl", "equi"])
    C = gen.ct()
    cls = getattr(C, gen.PROJ[proj])
    objs = []
    for _ in range(8):
        kw, dims, _ = description(ctx, proj, ctx.chance(0.6))
        want = expected(proj, kw, dims)
        given = tuple(sorted(kw))
        if want is None:
            try:
                p = cls(**kw)
            except ValueError:
                ctx.check(True, "rejected", "")
                ctx.seen("rejected", proj, given)
                continue
            except Exception as err:
                ctx.fail("rejected", "a wrong description is rejected with %r instead of a ValueError" % err, arguments=kw)
            ctx.fail("rejected", "a contradictory or incomplete description was accepted: fx=%s fy=%s" % (p.focallength_x_px, p.focallength_y_px), arguments=kw)
        p = ctx.call("projection", cls, **kw)
        judge_values(ctx, p, want, "built", kw)
        if "image" in kw and hasattr(kw["image"], "shape"):
            ctx.count["judged:image-object"] += 1
        if "sensor_width_mm" not in want:
            ctx.check(float(p.sensor_width_mm) == 17.3 and float(p.sensor_height_mm) == 13.0, "default-sensor", "the default sensor is %s x %s" % (p.sensor_width_mm, p.sensor_height_mm))
        judge_view(ctx, proj, p, want, "built")
        ctx.seen("built", proj, given)
        objs.append((p, want, kw))
        # the field of view is the angle between the rays of the borders
        if want["center_x_px"] == want["image_width_px"] / 2 and want["center_y_px"] == want["image_height_px"] / 2:
            w, h = want["image_width_px"], want["image_height_px"]
            vx, vy = p.getFieldOfView()
            r = np.asarray(p.getRay(np.array([[0, h / 2], [w / 2, h / 2], [w, h / 2], [w / 2, 0], [w / 2, h]], dtype=float), normed=True), dtype=float)
            if vx < 359 and vy < 179.99:
                ax = np.rad2deg(ref.angle_between(r[0], r[1]) + ref.angle_between(r[1], r[2]))
                ay = np.rad2deg(ref.angle_between(r[3], r[1]) + ref.angle_between(r[1], r[4]))
                ctx.check(abs(ax - vx) < 1e-6 and abs(ay - vy) < 1e-6, "angle", "the rays of the borders enclose %s and %s, the field of view is %s and %s" % (ax, ay, vx, vy), want=want)
                ctx.seen("angle", proj, vx > 180)
    # projections are independent of each other
    for p, want, kw in objs:
        judge_values(ctx, p, want, "built", kw)
    ctx.sample(projection=proj, arguments=given)


def convert(ctx):
    proj = ctx.pick(["rect", "cyl", "equi"])
    kw, dims, _ = description(ctx, proj, True)
    want = expected(proj, kw, dims)
    if want is None:
        from rtm.core import Skip
        raise Skip()
    p = ctx.call("projection", getattr(gen.ct(), gen.PROJ[proj]), **kw)
    camera = ctx.chance(0.4)
    holder = gen.ct().Camera(p) if camera else p
    for _ in range(6):
        w, h, fx, fy = [want[k] for k in ("image_width_px", "image_height_px", "focallength_x_px", "focallength_y_px")]
        for axis, size, f, name in (("x", w, fx, "view_x"), ("y", h, fy, "view_y")):
            v = views(ctx, proj)[axis == "y"]
            got = float(ctx.call("focallengthFromFOV", p.focallengthFromFOV, **{name: v}))
            ctx.check(close(got, focal_of(proj, axis, size, v)), "convert", "the focal length of a view of %s° in %s is %s and not %s" % (v, axis, got, focal_of(proj, axis, size, v)), want=want)
            got = float(ctx.call("imageFromFOV", p.imageFromFOV, **{name: v}))
            ctx.check(close(got, size_of(proj, axis, f, v)), "convert", "the image size of a view of %s° in %s is %s and not %s" % (v, axis, got, size_of(proj, axis, f, v)), want=want)
            real = view_of(proj, axis, size, f)
            if 0.01 < real < (175 if (proj == "rect" or (proj, axis) == ("cyl", "y")) else 1e9):
                ctx.check(abs(float(p.focallengthFromFOV(**{name: real})) - f) <= 1e-7 * f, "convert", "the focal length of the present view is not the present focal length", want=want)
                ctx.check(abs(float(p.imageFromFOV(**{name: real})) - size) <= 1e-7 * size, "convert", "the image size of the present view is not the present image size", want=want)
        judge_view(ctx, proj, p, want, "later")
        judge_values(ctx, p, want, "later", kw)
        if camera:
            judge_values(ctx, holder, want, "later", kw)
        # change it
        k = ctx.pick(["image_width_px", "image_height_px", "focallength_x_px", "focallength_y_px", "focallength_px", "center_x_px"])
        v = float(ctx.rng.uniform(100, 3000)) if "image" not in k else int(ctx.rng.integers(50, 4000))
        setattr(holder, k, v)
        for t in (["focallength_x_px", "focallength_y_px"] if k == "focallength_px" else [k]):
            want[t] = v
        ctx.note(set=k, value=v)
        ctx.seen("change", proj, k, camera)


SCENARIOS = dict(construct=(construct, 1500, 60000), convert=(convert, 600, 20000))
