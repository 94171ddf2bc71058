"""C01 forward projection: space -> image follows the documented camera model for every camera and point"""
import numpy as np

from rtm import gen, ref

RULE = ("random cameras (3 projections x tilt/heading/roll or yaw/pitch/roll x no/Brown/ABC lens) and points in all "
        "directions around them (front, behind, exactly beside, on the axes, near, far); each image position is compared "
        "with an independent reference, distinct = (projection, orientation, lens, hide, octant of the point, nan/finite)")
ASSUMPTIONS = ["points whose image position is not determined to 0.05 px by double precision input are not judged",
               "panoramic x positions are compared modulo a full turn"]
REQUIRE = {"judged:position": 20000, "judged:hidden": 3000, "judged:visible": 10000, "judged:opencv": 500}


def judge(ctx, s, cam, pts, got, hide, in_camera=False):
    """ the monitor: every row of one imageFromSpace / imageFromCamera event """
    pts = np.atleast_2d(np.asarray(pts, dtype=float))
    got = np.asarray(got, dtype=float)
    ctx.check(got.shape[-1] == 2 and got.size == 2 * len(pts), "shape", "result has shape %s for %d points" % (got.shape, len(pts)))
    got = got.reshape(-1, 2)
    q = pts if in_camera else ref.camera_from_space(s, pts)
    want = ref.distort(s, ref.project(s, q)) if not in_camera else ref.project(s, q)
    s_tol = dict(s, lens="none") if in_camera else s
    tol = ref.image_tolerance(s_tol, pts, in_camera)
    z = q[:, 2]
    zerr = 1e-9 + 1e-12 * (np.abs(pts).max(axis=-1) + (0 if in_camera else np.abs(ref.position(s)).max()))
    diff = np.abs(ref.wrap_x(s_tol, got - want))
    for i in range(len(pts)):
        if s["proj"] == "rect":
            if abs(z[i]) <= zerr[i]:
                ctx.count["undecided.plane"] += 1
                continue
            if hide and z[i] > 0:
                ctx.check(np.isnan(got[i]).all(), "hidden", "a point behind the camera is shown at %s" % got[i],
                          spec=s, point=pts[i], camera=q[i], hide=hide)
                ctx.seen(s["proj"], s["orient"], s["lens"], hide, "back")
                continue
        elif np.hypot(q[i, 0], z[i]) <= 10 * zerr[i]:
            ctx.count["undecided.pole"] += 1
            continue
        if not tol[i] < 0.05:
            ctx.count["undecided.conditioning"] += 1
            continue
        ctx.check(np.isfinite(got[i]).all(), "visible", "a point in the domain of the projection is not shown",
                  spec=s, point=pts[i], camera=q[i], got=got[i], want=want[i], hide=hide)
        ctx.check((diff[i] <= tol[i]).all(), "position", "image position %s instead of %s (tolerance %.2g px)" % (
            got[i], want[i], tol[i]), spec=s, point=pts[i], camera=q[i], hide=hide)
        ctx.seen(s["proj"], s["orient"], s["lens"], hide, tuple(np.sign(np.round(q[i], 12))))


def points(ctx):
    """ several cameras are used interleaved, with points in all directions """
    specs = [gen.spec(ctx) for _ in range(2)]
    cams = [ctx.call("Camera", gen.make_camera, s) for s in specs]
    for _ in range(4):
        k = int(ctx.rng.integers(2))
        s, cam = specs[k], cams[k]
        pts = gen.space_points(ctx, s, gen.batch_size(ctx, 800), ref)
        dressed, plain, form = gen.dress(ctx, pts, "float32" if ctx.chance(0.07) else None)
        single = ctx.chance(0.2)
        if single:
            dressed, plain = dressed[0], plain[:1]
        hide = ctx.pick([None, True, False])
        kw = {} if hide is None else dict(hide_backpoints=hide)
        got = ctx.call("imageFromSpace", cam.imageFromSpace, dressed, **kw)
        ctx.check(np.shape(got) == np.shape(plain[0] if single else plain)[:-1] + (2,), "shape",
                  "shape %s for input %s" % (np.shape(got), np.shape(dressed)))
        judge(ctx, s, cam, plain, got, hide is not False)
        ctx.sample(spec=s, form=form, point=plain[0], image=np.atleast_2d(got)[0])


def exact_axes(ctx):
    """ points in camera coordinates with exact zeros and tiny components, given to the projection itself """
    s = gen.spec(ctx, lens="none")
    proj = ctx.call("projection", gen.make_projection, s)
    n = 30
    pts = ctx.rng.normal(size=(n, 3)) * 10.0 ** ctx.rng.integers(-3, 4, (n, 1))
    pts[ctx.rng.random((n, 3)) < 0.3] = 0
    tiny = ctx.rng.random((n, 3)) < 0.05
    pts[tiny] *= 1e-13
    if ctx.chance(0.3):
        pts = np.round(pts)
    hide = bool(ctx.chance(0.5))
    dressed, plain, form = gen.dress(ctx, pts)
    got = ctx.call("imageFromCamera", proj.imageFromCamera, dressed, hide_backpoints=hide)
    judge(ctx, s, None, plain, got, hide, in_camera=True)
    if s["proj"] == "rect":
        for i in np.flatnonzero(plain[:, 2] == 0):
            ctx.check(not np.isfinite(np.asarray(got)[i]).all(), "plane", "a point in the camera plane has the image position %s" % got[i],
                      spec=s, point=plain[i])


def opencv(ctx):
    """ second oracle: OpenCV's projectPoints with radial coefficients """
    import cv2
    s = gen.spec(ctx, proj="rect", lens=ctx.pick(["none", "brown"]))
    if not abs(s["x"]) + abs(s["y"]) < 1e4:
        s["x"] = s["y"] = 0.0
    cam = ctx.call("Camera", gen.make_camera, s)
    q = ctx.rng.normal(size=(20, 3)) * [3, 3, 1]
    q[:, 2] = -np.exp(ctx.rng.uniform(0, 4, 20))
    pts = ref.space_from_camera(s, q)
    # opencv looks along +z with y down: turn the axes of the camera (Rodrigues vectors are inexact near half turns)
    K = np.array([[s["fx"], 0, s["cx"]], [0, s["fy"], s["cy"]], [0, 0, 1.0]])
    k = s.get("k", (0, 0, 0))
    want = cv2.projectPoints((q * [1, -1, -1])[:, None], np.zeros(3), np.zeros(3), K, np.array([k[0], k[1], 0, 0, k[2]], dtype=float))[0][:, 0]
    got = np.asarray(ctx.call("imageFromSpace", cam.imageFromSpace, pts))
    tol = 1e-4 + 1e-6 * np.abs(want)
    for i in range(len(pts)):
        ctx.check((np.abs(got[i] - want[i]) <= tol[i]).all(), "opencv", "image position %s, OpenCV says %s" % (got[i], want[i]),
                  spec=s, point=pts[i])


def physical(ctx):
    """ metamorphic: moving the camera and the points together, or scaling the scene, does not change the image """
    s = gen.spec(ctx, moderate=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    pts = gen.space_points(ctx, s, 12, ref)
    a = np.asarray(ctx.call("imageFromSpace", cam.imageFromSpace, pts))
    shift = ctx.rng.uniform(-100, 100, 3)
    t = dict(s, x=s["x"] + shift[0], y=s["y"] + shift[1], elev=s["elev"] + shift[2])
    b = np.asarray(ctx.call("imageFromSpace", ctx.call("Camera", gen.make_camera, t).imageFromSpace, pts + shift))
    f = ctx.rng.uniform(0.1, 10)
    u = dict(s, x=s["x"] * f, y=s["y"] * f, elev=s["elev"] * f)
    c = np.asarray(ctx.call("imageFromSpace", ctx.call("Camera", gen.make_camera, u).imageFromSpace, pts * f))
    tol = 10 * ref.image_tolerance(s, pts, rel=1e-11)
    z, zerr = ref.depth_margin(s, pts)
    for i in range(len(pts)):
        if tol[i] < 0.05 and abs(z[i]) > 1e-6 and np.hypot(*ref.camera_from_space(s, pts[i])[[0, 2]]) > 1e-6:
            for other, name in ((b, "translation"), (c, "scaling")):
                same = np.isnan(a[i]).all() and np.isnan(other[i]).all()
                d = np.abs(ref.wrap_x(s, a[i] - other[i]))
                ctx.check(same or (d <= tol[i]).all(), "similarity." + name, "image moves from %s to %s" % (a[i], other[i]),
                          spec=s, point=pts[i], shift=shift, factor=f)


SCENARIOS = dict(points=(points, 2400, 60000), exact_axes=(exact_axes, 1200, 30000), opencv=(opencv, 400, 10000),
                 physical=(physical, 600, 15000))
