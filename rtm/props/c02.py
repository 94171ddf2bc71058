"""C02 image -> space: the answer fulfils the constraint, lies on the line of sight in front, and projects back"""
import numpy as np

from rtm import gen, ref

RULE = ("random cameras, image points and constraints (X, Y, Z, distance D, or a triangle mesh; scalar or one per point); "
        "distinct = (projection, orientation, lens, constraint kind, scalar/array, in front/behind)")
ASSUMPTIONS = ["image points outside the part of the image for which the lens and projection have a unique line of sight, "
               "and intersections which double precision cannot determine, are not judged"]
REQUIRE = {"judged:constraint": 8000, "judged:on-ray": 8000, "judged:behind": 1500, "judged:round-trip": 5000,
           "judged:ray-direction": 5000, "judged:mesh": 1000, "judged:at-camera": 200}


def usable_points(ctx, s, n, single=False):
    for _ in range(5):
        p = gen.image_points(ctx, s, n)
        ok = ref.valid_image(s, p)
        if ok.any():
            return p[ok]
    from rtm.core import Skip
    raise Skip()


def judge(ctx, s, cam, p, kind, value, got, info):
    """ rows of one spaceFromImage event """
    o, d = ref.position(s), ref.ray(s, p)
    # how much the line of sight can be wrong: the rays of displaced pixels
    dd = np.zeros(len(p))
    for e in ([1, 0], [0, 1], [-1, 0], [0, -1]):
        with np.errstate(all="ignore"):
            dd = np.fmax(dd, np.linalg.norm(ref.ray(s, p + 1e-8 * max(s["w"], s["h"]) * np.array(e)) - d, axis=-1))
    dd = dd + 1e-13
    value = np.broadcast_to(np.asarray(value, dtype=float), (len(p),))
    for i in range(len(p)):
        g = got[i]
        if kind == "D":
            lam, dlam = value[i], 1e-12 * abs(value[i])
        else:
            k = "XYZ".index(kind)
            if abs(d[i, k]) < 50 * dd[i]:
                ctx.count["undecided.parallel"] += 1
                continue
            lam = (value[i] - o[k]) / d[i, k]
            dlam = (1e-13 * (abs(value[i]) + abs(o[k])) + abs(lam) * dd[i]) / abs(d[i, k])
        if kind == "D" and value[i] == 0:
            ctx.check(np.linalg.norm(g - o) <= 1e-9 * (1 + np.abs(o).max()), "at-camera", "the point in the distance 0 is %s, the camera is at %s" % (g, o), spec=s, image=p[i])
            continue
        if abs(lam) <= 2 * dlam + 1e-9:
            ctx.count["undecided.at-camera"] += 1
            continue
        side = "behind" if lam < 0 else "front"
        ctx.seen(s["proj"], s["orient"], s["lens"], kind, info, side)
        if lam < 0:
            ctx.check(np.isnan(g).all(), "behind", "the constraint %s=%s is behind the camera, but the answer is %s" % (kind, value[i], g),
                      spec=s, image=p[i])
            continue
        want = o + lam * d[i]
        tol = 2 * dlam + 2 * abs(lam) * dd[i] + 1e-11 * (np.abs(want).max() + np.abs(o).max()) + 1e-9
        if tol > 0.02 * (abs(lam) + 1e-3):
            ctx.count["undecided.conditioning"] += 1
            continue
        ctx.check(np.isfinite(g).all(), "front", "a visible point with %s=%s has no answer" % (kind, value[i]), spec=s, image=p[i], got=g, want=want)
        if kind == "D":
            ctx.check(abs(np.linalg.norm(g - o) - value[i]) <= tol, "constraint", "distance %s instead of D=%s" % (np.linalg.norm(g - o), value[i]),
                      spec=s, image=p[i], got=g)
        else:
            k = "XYZ".index(kind)
            ctx.check(abs(g[k] - value[i]) <= 1e-9 + 1e-10 * (abs(value[i]) + np.abs(o).max() + abs(lam)), "constraint",
                      "%s is %s instead of %s" % (kind, g[k], value[i]), spec=s, image=p[i], got=g)
        ctx.check((np.abs(g - want) <= tol).all(), "on-ray", "the answer %s is not on the line of sight (should be %s)" % (g, want),
                  spec=s, image=p[i], kind=kind, value=value[i], tolerance=tol)
    # and back into the image, with the package's own projection
    front = np.isfinite(got).all(axis=-1)
    if front.any():
        back = np.asarray(ctx.call("imageFromSpace", cam.imageFromSpace, got[front])).reshape(-1, 2)
        tol = 1e-5 * max(s["w"], s["h"]) / 100 + 20 * ref.image_tolerance(s, got[front], rel=1e-12)
        # lenses with a steep slope amplify
        for j, (a, b) in enumerate(zip(p[front], back)):
            dist = np.linalg.norm(got[front][j] - o)
            if not tol[j] < 0.05 or dist < 1e-6:
                ctx.count["undecided.back"] += 1
                continue
            ctx.check((np.abs(a - b) <= tol[j]).all(), "round-trip", "image point %s comes back as %s" % (a, b), spec=s,
                      space=got[front][j], kind=kind)


def constraints(ctx):
    specs = [gen.spec(ctx), gen.spec(ctx, moderate=True)]
    cams = [ctx.call("Camera", gen.make_camera, s) for s in specs]
    for _ in range(4):
        j = int(ctx.rng.integers(2))
        s, cam = specs[j], cams[j]
        p = usable_points(ctx, s, gen.batch_size(ctx, 300))
        kind = ctx.pick(["X", "Y", "Z", "Z", "D", "default"])
        array = ctx.chance(0.4) and kind != "default"
        o = ref.position(s)
        n = len(p)
        scale = gen.log_uniform(ctx, 0.1, 1000)
        if kind == "default":
            value = 0.0
        elif kind == "D":
            value = np.abs(ctx.rng.normal(size=n)) * scale + 0.01
            if ctx.chance(0.1):
                value = -value
            if ctx.chance(0.15):
                value = np.zeros(n) if ctx.chance(0.5) else value * (ctx.rng.uniform(size=n) < 0.5)
        else:
            value = o["XYZ".index(kind)] + ctx.rng.normal(size=n) * scale
            if ctx.chance(0.3):
                value = np.round(value)
            if ctx.chance(0.15):
                value = np.zeros(n)
        dressed, plain, form = gen.dress(ctx, p)
        if form in ("float32", "int"):
            ok = ref.valid_image(s, plain)
            if not ok.all():
                dressed, plain, form = p.copy(), p, "array"
        kw = {}
        if kind != "default":
            if array:
                if ctx.chance(0.3) and kind in "XYZ":
                    value = np.round(value)
                    kw[kind] = ctx.pick([value.astype(int), list(value), value])
                else:
                    kw[kind] = value if kind == "D" else ctx.pick([value, list(value)])
            else:
                v = float(np.atleast_1d(value)[0])
                if ctx.chance(0.2):
                    v = int(np.round(v)) or (0 if kind == "D" else 1)
                kw[kind] = v
                value = v
        single = ctx.chance(0.25) and not array
        if single:
            dressed, plain = dressed[0], plain[:1]
        got = np.asarray(ctx.call("spaceFromImage", cam.spaceFromImage, dressed, **kw), dtype=float)
        ctx.check(got.shape == ((3,) if single else (len(plain), 3)), "shape", "shape %s for %s points" % (got.shape, np.shape(dressed)), spec=s, kw=kw)
        judge(ctx, s, cam, plain, "Z" if kind == "default" else kind, value, got.reshape(-1, 3),
              ("single" if single else "batch", "array" if array else "scalar"))
        ctx.sample(spec=s, constraint=kw, image=plain[0], space=got.reshape(-1, 3)[0])


def rays(ctx):
    s = gen.spec(ctx)
    cam = ctx.call("Camera", gen.make_camera, s)
    p = usable_points(ctx, s, gen.batch_size(ctx, 300))
    dressed, plain, form = gen.dress(ctx, p, ctx.pick(["array", "list", "tuple", "strided", "readonly", "fortran"]))
    single = ctx.chance(0.25)
    if single:
        dressed, plain = dressed[0], plain[:1]
    normed = bool(ctx.chance(0.5))
    o, d = ctx.call("getRay", cam.getRay, dressed, **(dict(normed=True) if normed else {}))
    o, d = np.asarray(o, dtype=float), np.asarray(d, dtype=float)
    ctx.check(o.shape == (3,) and d.shape == ((3,) if single else plain.shape[:-1] + (3,)), "shape", "ray shapes %s %s" % (o.shape, d.shape))
    d = d.reshape(-1, 3)
    ctx.check(np.allclose(o, ref.position(s), rtol=1e-12, atol=1e-12), "origin", "the rays start at %s, the camera is at %s" % (o, ref.position(s)), spec=s)
    length = np.linalg.norm(d, axis=-1)
    ctx.check((length > 0).all(), "ray-length", "a ray of length 0", spec=s)
    if normed:
        ctx.check(np.allclose(length, 1, atol=1e-9), "normed", "normed rays have the lengths %s" % length[:5], spec=s)
    want = ref.ray(s, plain)
    for i in range(len(plain)):
        ctx.check(np.linalg.norm(d[i] / length[i] - want[i]) <= 1e-7, "ray-direction", "ray %s instead of %s" % (d[i] / length[i], want[i]),
                  spec=s, image=plain[i], normed=normed)
    # all points of the ray have this image position
    f = gen.log_uniform(ctx, 0.1, 1e3)
    q = o + d * f
    back = np.asarray(ctx.call("imageFromSpace", cam.imageFromSpace, q)).reshape(-1, 2)
    tol = 1e-5 * max(s["w"], s["h"]) / 100 + 20 * ref.image_tolerance(s, q)
    for i in range(len(plain)):
        if tol[i] < 0.05:
            ctx.check((np.abs(back[i] - plain[i]) <= tol[i]).all(), "round-trip", "a point of the ray of %s is seen at %s" % (plain[i], back[i]), spec=s, factor=f)


def mesh(ctx):
    """ project onto a random triangle mesh: nearest hit in front, nan when nothing is hit """
    s = gen.spec(ctx, moderate=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    p = usable_points(ctx, s, int(ctx.rng.integers(1, 25)))
    o, d = ref.position(s), ref.ray(s, p)
    m = int(ctx.rng.integers(1, 12))
    tri = []
    for _ in range(m):
        k = int(ctx.rng.integers(len(p)))
        c = o + d[k] * ctx.rng.uniform(1, 60) * (1 if ctx.chance(0.85) else -1)
        tri.append(c + ctx.rng.normal(size=(3, 3)) * ctx.rng.uniform(0.2, 20))
    tri = np.array(tri)
    if m == 1 and ctx.chance(0.5):
        arg = tri[0]
    else:
        arg = tri if ctx.chance(0.5) else tri.tolist()
    single = ctx.chance(0.2)
    got = np.asarray(ctx.call("spaceFromImage(mesh)", cam.spaceFromImage, p[0] if single else p, mesh=arg), dtype=float).reshape(-1, 3)
    from rtm.props import c12
    for i in range(len(got)):
        hit, sure = c12.reference_hit(o, d[i], tri, 1e-6)
        if not sure:
            ctx.count["undecided.edge"] += 1
            continue
        ctx.seen("mesh", s["proj"], s["lens"], hit is None, min(m, 3), single)
        if hit is None:
            ctx.check(np.isnan(got[i]).all(), "mesh.miss", "the line of sight misses the mesh, but the answer is %s" % got[i], spec=s, image=p[i], mesh=tri)
        else:
            want = o + hit * d[i]
            ctx.check(np.isfinite(got[i]).all() and np.linalg.norm(got[i] - want) <= 1e-5 * (1 + hit), "mesh.hit",
                      "the mesh is hit at %s, the answer is %s" % (want, got[i]), spec=s, image=p[i], mesh=tri)


SCENARIOS = dict(constraints=(constraints, 2000, 50000), rays=(rays, 1200, 30000), mesh=(mesh, 700, 20000))
REQUIRE["judged:mesh"] = 0
REQUIRE.update({"judged:mesh.hit": 500, "judged:mesh.miss": 500})
del REQUIRE["judged:mesh"]
