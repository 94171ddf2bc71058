"""
The catalogue of the queries (operations which only answer) of the package with valid random arguments; used by the
monitors of C06 (nothing is changed), C07 (batch = pointwise) and as background traffic.

A query is a dict: name, fn(*args, **kw), args (list), kw, rows: names/indices of the arguments with one row per point,
take: function which makes an array with one row per point from the answer (None: no batch semantics),
lists: whether plain lists are documented as arguments, nd: whether arrays of more dimensions are supported
"""
import numpy as np

from . import gen, ref


def ident(x):
    return np.asarray(x, dtype=float)


class World:
    """ cameras, a group and their descriptions """

    def __init__(self, ctx, small=False):
        self.s = gen.spec(ctx, moderate=True, small=small)
        self.cam = ctx.call("Camera", gen.make_camera, self.s)
        self.s2 = gen.spec(ctx, moderate=True, small=small)
        self.s2.update(proj=ctx.pick([self.s["proj"], "rect"]))
        c = gen.ct()
        self.group = ctx.call("CameraGroup", c.CameraGroup, [gen.make_projection(self.s), gen.make_projection(self.s2)],
                              [gen.make_orientation(self.s), gen.make_orientation(self.s2)], [gen.make_lens(self.s), gen.make_lens(self.s2)])


def visible(ctx, s, n):
    for _ in range(20):
        p = gen.image_points(ctx, s, n * 3, inside=True)
        p = p[ref.valid_image(s, p)]
        if len(p):
            return p[np.arange(n) % len(p)] if len(p) < n else p[:n]
    from .core import Skip
    raise Skip()


def build(ctx, w, name, n):
    c, s, cam, rng = gen.ct(), w.s, w.cam, ctx.rng
    from cameratransform import ray, gps
    proj, ori, lens = cam.projection, cam.orientation, cam.lens
    img = lambda: visible(ctx, s, n)

    def spc():
        p = ref.well_conditioned(s, gen.space_points(ctx, s, 3 * n + 5, ref))
        if len(p) == 0:
            from .core import Skip
            raise Skip()
        return p[np.arange(n) % len(p)]

    geo = lambda d=2: np.stack([rng.uniform(-85, 85, n), rng.uniform(-180, 180, n), rng.uniform(0, 50, n)], -1)[:, :d]
    near = lambda d=3: np.stack([s["lat"] + rng.uniform(-.001, .001, n), s["lon"] + rng.uniform(-.001, .001, n), rng.uniform(0, 20, n)], -1)[:, :d]
    q = dict(name=name, kw={}, rows=[0], take=ident, lists=True, nd=False)

    def z_value():
        if ctx.chance(0.5):
            return rng.uniform(-3, 1, n)
        return float(rng.uniform(-3, 1))

    if name == "imageFromSpace":
        q.update(fn=cam.imageFromSpace, args=[spc()], kw=dict(hide_backpoints=bool(ctx.chance(0.5))), nd=True)
    elif name == "getRay":
        q.update(fn=cam.getRay, args=[img()], kw=dict(normed=bool(ctx.chance(0.5))), take=lambda r: ident(r[1]), nd=True)
    elif name in ("spaceFromImage", "gpsFromImage"):
        k = ctx.pick("XYZD")
        v = rng.uniform(1, 100, n) if k == "D" else ref.position(s)["XYZ".index(k)] + rng.normal(size=n) * 30 if k != "Z" else rng.uniform(-20, 1, n)
        array = ctx.chance(0.5)
        q.update(fn=getattr(cam, name), args=[img()], kw={k: v if array else float(v[0])}, rows=[0] + ([k] if array else []), nd=name == "spaceFromImage")
        if ctx.chance(0.15):
            q.update(kw={}, rows=[0])
    elif name == "spaceFromImage.mesh":
        p = img()
        d = ref.ray(s, p)
        k = int(rng.integers(1, 6))
        tri = np.array([ref.position(s) + d[rng.integers(n)] * rng.uniform(5, 50) + rng.normal(size=(3, 3)) * 10 for _ in range(k)])
        q.update(fn=cam.spaceFromImage, args=[p], kw=dict(mesh=tri if k > 1 or ctx.chance(0.5) else tri[0]))
    elif name == "gpsFromSpace":
        q.update(fn=cam.gpsFromSpace, args=[rng.normal(size=(n, 3)) * 100])
    elif name == "spaceFromGPS":
        q.update(fn=cam.spaceFromGPS, args=[near(ctx.pick([2, 3]))])
    elif name == "imageFromGPS":
        q.update(fn=cam.imageFromGPS, args=[near()])
    elif name in ("getObjectHeight", "getObjectLength"):
        z = z_value()
        q.update(fn=getattr(cam, name), args=[img(), img()], kw=dict(Z=z), rows=[0, 1] + (["Z"] if np.ndim(z) else []), nd=np.ndim(z) == 0)
        if ctx.chance(0.3):
            q.update(kw={}, rows=[0, 1])
    elif name == "getImageHorizon":
        q.update(fn=cam.getImageHorizon, args=[rng.uniform(0, s["w"], n)])
    elif name == "projection.imageFromCamera":
        q.update(fn=proj.imageFromCamera, args=[rng.normal(size=(n, 3)) * 20 - [0, 0, 30]], nd=True)
    elif name == "projection.getRay":
        p = ref.undistort(s, img())
        q.update(fn=proj.getRay, args=[p], kw=dict(normed=bool(ctx.chance(0.5))), nd=True)
    elif name == "orientation.cameraFromSpace":
        q.update(fn=ori.cameraFromSpace, args=[spc()], nd=True)
    elif name == "orientation.spaceFromCamera":
        q.update(fn=ori.spaceFromCamera, args=[spc()], kw=dict(direction=bool(ctx.chance(0.5))), nd=True)
    elif name == "lens.distortedFromImage":
        q.update(fn=lens.distortedFromImage, args=[img()], nd=True)
    elif name == "lens.imageFromDistorted":
        q.update(fn=lens.imageFromDistorted, args=[img()], nd=True)
    elif name == "gps.getDistance":
        d = ctx.pick([2, 3])
        q.update(fn=c.getDistance, args=[geo(d), geo(d)], rows=[0, 1])
    elif name == "gps.getBearing":
        d = ctx.pick([2, 3])
        q.update(fn=c.getBearing, args=[geo(d), geo(d)], rows=[0, 1])
    elif name == "gps.moveDistance":
        q.update(fn=c.moveDistance, args=[geo(ctx.pick([2, 3])), rng.uniform(1, 1e6, n), rng.uniform(-360, 360, n)], rows=[0, 1, 2])
    elif name == "gps.spaceFromGPS":
        q.update(fn=gps.spaceFromGPS, args=[near(ctx.pick([2, 3])), np.array([s["lat"], s["lon"]])])
    elif name == "gps.gpsFromSpace":
        q.update(fn=gps.gpsFromSpace, args=[rng.normal(size=(n, 3)) * 1000, np.array([s["lat"], s["lon"], 10.0][:ctx.pick([2, 3])])])
    elif name == "ray.ray_intersect_triangle":
        o = rng.normal(size=3)
        tri = rng.normal(size=(int(rng.integers(1, 8)), 3, 3)) * 4
        q.update(fn=ray.ray_intersect_triangle, args=[o, rng.normal(size=(n, 3)), tri if ctx.chance(0.8) else tri[0]], rows=[1])
    elif name in ("ray.intersectionOfTwoLines", "ray.distanceOfTwoLines"):
        d1, d2 = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
        if ctx.chance(0.3):
            # some of the lines are parallel
            k = rng.random(n) < 0.4
            d1[k] = np.eye(3)[rng.integers(0, 3, int(k.sum()))]
            d2[k] = d1[k] * ctx.pick([1.0, -1.0, 2.0])
        q.update(fn=getattr(ray, name[4:]), args=[rng.normal(size=3), d1, rng.normal(size=3), d2], rows=[1, 3], lists=False)
    elif name == "ray.getClosestPointFromLine":
        d = ctx.pick([2, 3])
        if ctx.chance(0.5):
            q.update(fn=ray.getClosestPointFromLine, args=[rng.normal(size=d), rng.normal(size=(n, d)), rng.normal(size=(n, d))], rows=[1, 2], lists=False)
        else:
            q.update(fn=ray.getClosestPointFromLine, args=[rng.normal(size=(n, d)), rng.normal(size=(n, d)), rng.normal(size=(n, d))], rows=[0, 1, 2], lists=False)
        if ctx.chance(0.1):
            q["args"][2][rng.random(n) < 0.5] = q["args"][0] if np.ndim(q["args"][0]) == 1 else q["args"][0][0]
    elif name == "ray.areaOfQuadrilateral":
        q.update(fn=ray.areaOfQuadrilateral, args=[rng.normal(size=(n, 4, 2))])
    elif name == "group.spaceFromImages":
        q.update(fn=w.group.spaceFromImages, args=[img(), visible(ctx, w.s2, n)], rows=[0, 1])
    elif name == "group.discanteBetweenRays":
        q.update(fn=w.group.discanteBetweenRays, args=[img(), visible(ctx, w.s2, n)], rows=[0, 1])
    elif name == "group.imagesFromSpace":
        q.update(fn=w.group.imagesFromSpace, args=[spc()], take=lambda r: np.concatenate([ident(v) for v in r], axis=-1), nd=True)
    elif name == "group.pointCorrespondenceError":
        q.update(fn=w.group.pointCorrespondenceError, args=[img(), visible(ctx, w.s2, n)], rows=[0, 1], take=None, lists=False)
    else:
        raise KeyError(name)
    return q


BATCH = ["imageFromSpace", "getRay", "spaceFromImage", "spaceFromImage", "gpsFromImage", "spaceFromImage.mesh", "gpsFromSpace", "spaceFromGPS", "imageFromGPS",
         "getObjectHeight", "getObjectLength", "projection.imageFromCamera", "projection.getRay", "orientation.cameraFromSpace",
         "orientation.spaceFromCamera", "lens.distortedFromImage", "lens.imageFromDistorted", "gps.getDistance", "gps.getBearing",
         "gps.moveDistance", "gps.spaceFromGPS", "gps.gpsFromSpace", "ray.ray_intersect_triangle", "ray.intersectionOfTwoLines",
         "ray.distanceOfTwoLines", "ray.getClosestPointFromLine", "ray.areaOfQuadrilateral", "group.spaceFromImages",
         "group.discanteBetweenRays", "group.imagesFromSpace"]
SLOW = ["getImageHorizon"]
OTHER = ["group.pointCorrespondenceError"]


def build_plain(ctx, w, name):
    """ queries without batch semantics """
    c, s, cam, rng = gen.ct(), w.s, w.cam, ctx.rng
    from cameratransform import ray
    q = dict(name=name, kw={}, rows=[], take=None, lists=True, nd=False, args=[])
    small = max(s["w"], s["h"]) <= 100
    if name == "getPos":
        q.update(fn=cam.getPos)
    elif name == "distanceToHorizon":
        q.update(fn=cam.distanceToHorizon)
    elif name == "getImageBorder":
        q.update(fn=cam.getImageBorder, kw=dict(resolution=max(s["w"], s["h"]) / 7))
    elif name == "getCameraCone":
        q.update(fn=cam.getCameraCone, kw=dict(project_to_ground=bool(small and ctx.chance(0.5)), D=5.0))
    elif name == "getFieldOfView":
        q.update(fn=cam.projection.getFieldOfView)
    elif name == "focallengthFromFOV":
        q.update(fn=cam.projection.focallengthFromFOV, kw={ctx.pick(["view_x", "view_y"]): 40.0})
    elif name == "imageFromFOV":
        q.update(fn=cam.projection.imageFromFOV, kw={ctx.pick(["view_x", "view_y"]): 40.0})
    elif name == "str":
        q.update(fn=lambda: str(cam))
    elif name == "getLogProbability":
        q.update(fn=cam.getLogProbability)
    elif name == "group.getBaseline":
        q.update(fn=w.group.getBaseline)
    elif name == "group.getLogProbability":
        q.update(fn=w.group.getLogProbability)
    elif name == "formatGPS":
        q.update(fn=c.formatGPS, args=[s["lat"], s["lon"]])
    elif name == "gpsFromString":
        q.update(fn=c.gpsFromString, args=[["66°39'56.12862''S", "140°01'20.39562'' E"]])
    elif name == "areaOfTriangle":
        q.update(fn=ray.areaOfTriangle, args=[rng.normal(size=(3, 3))], lists=False)
    elif name == "extrudeLine":
        q.update(fn=ray.extrudeLine, args=[rng.normal(size=(5, 2)).tolist(), 0.0, 3.0])
    elif name == "distanceLinePoint":
        q.update(fn=ray.distanceLinePoint, args=[rng.normal(size=3), rng.normal(size=3), rng.normal(size=3)], lists=False)
    elif name == "generateLUT":
        q.update(fn=cam.generateLUT, kw=dict(whole_image=bool(ctx.chance(0.5))))
    elif name == "getTopViewOfImage":
        im = rng.integers(0, 255, (s["h"], s["w"]) + ctx.pick([(), (3,), (4,)])).astype(np.uint8)
        q.update(fn=cam.getTopViewOfImage, args=[im], kw=dict(extent=[-10.0, 10.0, 5.0, 20.0], scaling=0.5), lists=False)
    elif name == "undistortImage":
        im = rng.integers(0, 255, (s["h"], s["w"]) + ctx.pick([(), (3,), (4,)])).astype(np.uint8)
        q.update(fn=cam.undistortImage, args=[im], lists=False)
        if ctx.chance(0.5):
            q.update(kw=dict(extent=[0.0, s["w"] * 0.7, 0.0, s["h"] * 0.6], scaling=ctx.pick([None, 1, 2])))
    else:
        raise KeyError(name)
    return q


PLAIN = ["getPos", "distanceToHorizon", "getImageBorder", "getCameraCone", "getFieldOfView", "focallengthFromFOV", "imageFromFOV", "str",
         "getLogProbability", "group.getBaseline", "group.getLogProbability", "formatGPS", "gpsFromString", "areaOfTriangle", "extrudeLine",
         "distanceLinePoint"]
SMALL_ONLY = ["generateLUT", "getTopViewOfImage", "undistortImage"]
