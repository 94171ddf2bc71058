"""
Generators of hostile but valid inputs. Besides smooth random values they use special values (right angles, zeros,
signs, huge offsets), and the numbers which occur in the source of the package itself (and their neighbourhood), so that
a behaviour which changes at a certain number is visited on both of its sides.
"""
import ast
import functools
import glob
import os

import numpy as np

from . import core


@functools.lru_cache(None)
def literals():
    values = set()
    for path in glob.glob(os.path.join(core.REPO, "cameratransform", "*.py")):
        try:
            tree = ast.parse(open(path, encoding="utf8").read())
        except Exception:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                v = float(node.value)
                if np.isfinite(v):
                    values.add(v)
                    values.add(-v)
    return np.array(sorted(values))


def mined(ctx, lo, hi):
    """ a number from the source inside [lo, hi], or one next to it """
    v = literals()
    v = v[(v >= lo) & (v <= hi)]
    if len(v) == 0:
        return float(ctx.rng.uniform(lo, hi))
    x = float(v[ctx.rng.integers(len(v))])
    mode = ctx.rng.integers(5)
    if mode == 1:
        x += ctx.rng.uniform(0, 1) * 10.0 ** ctx.rng.integers(-9, 1)
    elif mode == 2:
        x -= ctx.rng.uniform(0, 1) * 10.0 ** ctx.rng.integers(-9, 1)
    elif mode == 3:
        x = float(np.nextafter(x, ctx.pick([-np.inf, np.inf])))
    return float(min(max(x, lo), hi))


def number(ctx, lo, hi, special=(), p_special=0.25, p_mined=0.12):
    u = ctx.rng.random()
    if len(special) and u < p_special:
        return float(ctx.pick(list(special)))
    if u < p_special + p_mined:
        return mined(ctx, lo, hi)
    return float(ctx.rng.uniform(lo, hi))


def log_uniform(ctx, lo, hi):
    return float(np.exp(ctx.rng.uniform(np.log(lo), np.log(hi))))


def batch_size(ctx, big=3000):
    """ a number of points, sometimes one of the source's numbers or a neighbour """
    u = ctx.rng.random()
    if u < 0.15:
        return 1
    if u < 0.3:
        return int(ctx.pick([2, 3, 4]))
    if u < 0.75:
        return int(ctx.rng.integers(5, 30))
    if u < 0.85:
        v = literals()
        v = v[(v >= 1) & (v <= big) & (v == np.round(v))]
        if len(v):
            return max(1, int(v[ctx.rng.integers(len(v))]) + int(ctx.rng.integers(-1, 2)))
    return int(np.exp(ctx.rng.uniform(np.log(30), np.log(big))))


def huge_batch(ctx, top=70000):
    """ a large number of points: just beyond a multiple of one of the source's numbers, or anything """
    v = literals()
    v = v[(v >= 64) & (v <= top) & (v == np.round(v))]
    if len(v) and ctx.chance(0.6):
        x = int(v[ctx.rng.integers(len(v))])
        return min(top + 1, x * int(ctx.rng.integers(1, max(2, min(4, top // x) + 1))) + int(ctx.rng.integers(-1, 2)))
    return int(np.exp(ctx.rng.uniform(np.log(3000), np.log(top))))


ANGLES = [0, 90, -90, 180, -180, 45, 85, 270, 360, -270, 30, 89.999999, 90.000001, 1e-7, 135]
SIZES = [(4608, 2592), (640, 480), (100, 50), (1920, 1080), (50, 100), (333, 777), (64, 64), (3000, 500)]


def image_size(ctx, small=False):
    if small:
        return int(ctx.rng.integers(8, 90)), int(ctx.rng.integers(8, 70))
    if ctx.chance(0.5):
        return ctx.pick(SIZES)
    return int(ctx.rng.integers(8, 6000)), int(ctx.rng.integers(8, 5000))


def spec(ctx, proj=None, orient=None, lens=None, small=False, moderate=False):
    """ a random camera. moderate: no extreme offsets, for workloads which judge derived quantities """
    w, h = image_size(ctx, small)
    proj = proj or ctx.pick(["rect", "rect", "cyl", "equi"])
    if proj == "rect":
        fx = max(w, h) * (log_uniform(ctx, 0.35, 6) if not moderate else log_uniform(ctx, 0.5, 2.5))
    else:
        fx = w / ctx.rng.uniform(0.3, 2 * np.pi if not moderate else np.pi)
    if ctx.chance(0.15):
        fx = float(np.round(fx)) or fx
    fy = fx if ctx.chance(0.5) else fx * ctx.rng.uniform(0.8, 1.25)
    if ctx.chance(0.5):
        cx, cy = w / 2, h / 2
    elif ctx.chance(0.8) or moderate:
        cx, cy = w * ctx.rng.uniform(0.3, 0.7), h * ctx.rng.uniform(0.3, 0.7)
    else:
        cx, cy = ctx.pick([(0, 0), (w, h), (-0.2 * w, 1.1 * h), (w / 2, 0), (0, h / 2)])
    orient = orient or ctx.pick(["thr", "thr", "thr", "ypr"])
    s = dict(proj=proj, w=w, h=h, fx=float(fx), fy=float(fy), cx=float(cx), cy=float(cy), orient=orient)
    if moderate:
        s["elev"] = float(ctx.rng.uniform(2, 60))
        s["x"], s["y"] = [float(v) for v in ctx.rng.uniform(-50, 50, 2)] if ctx.chance(0.6) else (0.0, 0.0)
    else:
        s["elev"] = number(ctx, -20, 500, [0, 30, 1, 15.4, 1000, 8848, 0.5, -10])
        big = ctx.pick([1, 30, 1000, 1e6])
        s["x"], s["y"] = [number(ctx, -big, big, [0]) for _ in range(2)]
    turns = (lambda: 1 if moderate or ctx.chance(0.88) else ctx.pick([2, 3, 5]))
    heading = number(ctx, -360 * turns(), 360 * turns(), ANGLES)
    roll = number(ctx, -180 * turns(), 180 * turns(), [0, 0, 0, 90, -90, 180, 5])
    if moderate:
        tilt = number(ctx, 20, 110, [90, 45, 60, 85], 0.2, 0.05)
        roll = ctx.pick([0.0, float(ctx.rng.uniform(-30, 30))])
    else:
        tilt = number(ctx, -180 * turns(), 180 * turns(), ANGLES[:8])
    if orient == "ypr":
        s.update(yaw=heading, pitch=tilt - 90 if ctx.chance(0.7) else tilt, roll=roll)
    else:
        s.update(tilt=tilt, heading=heading, roll=roll)
    lens = lens or ctx.pick(["none", "none", "brown", "abc"])
    s["lens"] = lens
    if lens == "brown":
        s["k"] = lens_brown(ctx)
    elif lens == "abc":
        s["k"] = lens_abc(ctx)
    s["lat"], s["lon"] = float(ctx.rng.uniform(-80, 80)), float(ctx.rng.uniform(-179, 179))
    return s


def lens_brown(ctx):
    u = ctx.rng.random()
    if u < 0.1:
        return (0.0, 0.0, 0.0)
    if u < 0.5:
        return tuple(float(v) for v in ctx.rng.uniform(0, 1, 3) * [0.4, 0.1, 0.05] * (ctx.rng.random(3) < 0.7))
    if u < 0.8:
        return (float(ctx.rng.uniform(-0.25, 0.05)), float(ctx.rng.uniform(-0.02, 0.05)), float(ctx.rng.uniform(0, 0.01)))
    return (float(ctx.rng.uniform(-0.05, 1.5)), 0.0, 0.0)


def lens_abc(ctx):
    u = ctx.rng.random()
    if u < 0.1:
        return (0.0, 0.0, 0.0)
    if u < 0.6:
        return tuple(float(v) for v in ctx.rng.uniform(-0.06, 0.06, 3))
    return tuple(float(v) for v in ctx.rng.uniform(-0.02, 0.2, 3) * (ctx.rng.random(3) < 0.7))


# --- building real objects from specs ---------------------------------------------------------------------------------
def ct():
    import cameratransform
    return cameratransform


PROJ = dict(rect="RectilinearProjection", cyl="CylindricalProjection", equi="EquirectangularProjection")


def make_projection(s):
    return getattr(ct(), PROJ[s["proj"]])(focallength_x_px=s["fx"], focallength_y_px=s["fy"], center_x_px=s["cx"],
                                          center_y_px=s["cy"], image_width_px=s["w"], image_height_px=s["h"])


def make_orientation(s):
    if s["orient"] == "ypr":
        return ct().SpatialOrientationYawPitchRoll(elevation_m=s["elev"], yaw_deg=s["yaw"], pitch_deg=s["pitch"],
                                                   roll_deg=s["roll"], pos_x_m=s["x"], pos_y_m=s["y"])
    return ct().SpatialOrientation(elevation_m=s["elev"], tilt_deg=s["tilt"], roll_deg=s["roll"],
                                   heading_deg=s["heading"], pos_x_m=s["x"], pos_y_m=s["y"])


def make_lens(s):
    if s["lens"] == "brown":
        return ct().BrownLensDistortion(*s["k"])
    if s["lens"] == "abc":
        return ct().ABCDistortion(*s["k"])
    return ct().NoDistortion()


def make_camera(s, gps=True):
    cam = ct().Camera(make_projection(s), make_orientation(s), make_lens(s))
    if gps and "lat" in s:
        cam.gps_lat, cam.gps_lon = s["lat"], s["lon"]
    return cam


NAMES = dict(w="image_width_px", h="image_height_px", fx="focallength_x_px", fy="focallength_y_px", cx="center_x_px",
             cy="center_y_px", elev="elevation_m", x="pos_x_m", y="pos_y_m", tilt="tilt_deg", roll="roll_deg",
             heading="heading_deg", yaw="yaw_deg", pitch="pitch_deg", lat="gps_lat", lon="gps_lon")


def spec_of(cam):
    """ read the description of a real camera through its public parameters """
    c = ct()
    s = dict(proj={v: k for k, v in PROJ.items()}[
        [k.__name__ for k in type(cam.projection).__mro__ if k.__name__ in PROJ.values()][0]])
    s["orient"] = "ypr" if isinstance(cam.orientation, c.SpatialOrientationYawPitchRoll) else "thr"
    if isinstance(cam.lens, c.BrownLensDistortion):
        s["lens"], s["k"] = "brown", (float(cam.k1), float(cam.k2), float(cam.k3))
    elif isinstance(cam.lens, c.ABCDistortion):
        s["lens"], s["k"] = "abc", (float(cam.a), float(cam.b), float(cam.c))
    else:
        s["lens"] = "none"
    for key, name in NAMES.items():
        if name in cam.parameters.parameters:
            v = getattr(cam, name)
            s[key] = v if key in "wh" else float(v)
    return s


# --- points -----------------------------------------------------------------------------------------------------------
def image_points(ctx, s, n, inside=False):
    """ image positions, mostly inside the image; with its corners, edges, center and integer pixels """
    w, h = s["w"], s["h"]
    p = ctx.rng.uniform(0, 1, (n, 2)) * [w, h]
    if not inside:
        out = ctx.rng.random(n) < 0.1
        p[out] = (ctx.rng.uniform(-0.2, 1.2, (n, 2)) * [w, h])[out]
    special = np.array([[0, 0], [w, 0], [0, h], [w, h], [w / 2, h / 2], [s["cx"], s["cy"]], [w / 2, 0], [0, h / 2],
                        [s["cx"], h / 3], [w / 3, s["cy"]], [w - 1, h - 1]])
    for i in range(n):
        u = ctx.rng.random()
        if u < 0.08:
            p[i] = special[ctx.rng.integers(len(special))]
        elif u < 0.25:
            p[i] = np.round(p[i])
    if inside:
        p = np.clip(p, 0, [w, h])
    return p


def space_points(ctx, s, n, ref):
    """ points in space in all directions around the camera, in front of it, on its axes, near and far """
    dist = np.exp(ctx.rng.uniform(np.log(0.01), np.log(1e4), n))
    if ctx.chance(0.15):
        # the scene of a microscope
        dist *= 1e-3
    d = ctx.rng.normal(size=(n, 3))
    d /= np.linalg.norm(d, axis=1)[:, None]
    mode = ctx.rng.random(n)
    front = mode < 0.5
    d[front, 2] = -np.abs(d[front, 2]) - 0.3
    axis = mode > 0.85
    if axis.any():
        k = ctx.rng.integers(0, 6, n)
        e = np.zeros((n, 3))
        e[np.arange(n), k % 3] = np.where(k < 3, 1, -1)
        d[axis] = e[axis]
    plane = (mode > 0.75) & ~axis
    d[plane, ctx.rng.integers(0, 3)] = 0
    p = ref.space_from_camera(s, d * dist[:, None])
    g = ctx.rng.random(n) < 0.15
    p[g] = np.round(p[g])
    return p


# float32 is not part of the default: some operations keep that precision
FORMS = ["array", "list", "tuple", "fortran", "strided", "reversed", "readonly", "int", "sub", "plain"]


def dress(ctx, p, form=None):
    """
    the same numbers in another container. Returns (dressed, plain) where plain are the numbers which it really holds.
    """
    p = np.array(p, dtype=float)
    form = form or ctx.pick(FORMS)
    if form == "list":
        return p.tolist(), p, form
    if form == "tuple":
        return tuple(tuple(r) for r in p) if p.ndim == 2 else tuple(p), p, form
    if form == "fortran":
        return np.asfortranarray(p), p, form
    if form == "strided":
        big = np.full([v * 2 for v in p.shape], 7.25)
        view = big[tuple(slice(None, None, 2) for _ in p.shape)]
        view[...] = p
        return view, p, form
    if form == "reversed":
        return np.ascontiguousarray(p[::-1])[::-1], p, form
    if form == "readonly":
        q = p.copy()
        q.flags.writeable = False
        return q, p, form
    if form == "float32":
        q = p.astype(np.float32)
        return q, q.astype(float), form
    if form == "int":
        q = np.round(np.nan_to_num(np.clip(p, -1e9, 1e9))).astype(int)
        return q, q.astype(float), form
    if form == "sub":
        class Sub(np.ndarray):
            pass
        return p.copy().view(Sub), p, form
    return p.copy(), p, "array"
