"""C04 lens distortion"""
import numpy as np

from rtm import gen, ref

RULE = ("random Brown and ABC lenses (positive, negative and mixed coefficients), random projections, points from the "
        "exact centre to far outside of the image; distinct = (lens, sign pattern of the coefficients, radius bin, direction)")
ASSUMPTIONS = ["the inverse is judged where the radial function increases with a slope of at least 0.1 (elsewhere no unique inverse exists)"]
REQUIRE = {"strong": 2000, "judged:forward": 10000, "judged:inverse": 10000, "judged:centre": 500, "judged:identity": 300}


def points(ctx, s, n):
    """ image positions by radius: from the centre to beyond the corners """
    sc, c = ref.lens_scale(s), np.array([s["cx"], s["cy"]])
    corners = (np.array([[0, 0], [s["w"], 0], [0, s["h"]], [s["w"], s["h"]]]) - c) / sc
    rmax = np.hypot(corners[:, 0], corners[:, 1]).max()
    limit = ref.radial_limit(s)
    if limit < 0.05:
        from rtm.core import Skip
        raise Skip()
    r = ctx.rng.uniform(0, 1, n) ** ctx.pick([1, 2]) * min(limit, rmax * ctx.pick([1, 1.0, 1.5, 4]))
    phi = ctx.rng.uniform(0, 2 * np.pi, n)
    k = ctx.rng.random(n)
    phi[k < 0.15] = np.round(phi[k < 0.15] / (np.pi / 2)) * np.pi / 2
    q = np.stack([np.cos(phi), np.sin(phi)], axis=-1) * r[:, None]
    return q * sc + c, r, limit


def make(ctx, s):
    if ctx.chance(0.5):
        cam = ctx.call("Camera", gen.make_camera, s)
        return cam.lens, cam
    lens, proj = ctx.call("lens", gen.make_lens, s), ctx.call("projection", gen.make_projection, s)
    lens.setProjection(proj)
    return lens, None


def judge(ctx, s, lens, p, r, limit, single=False, form="array"):
    sc = ref.lens_scale(s)
    dressed, plain, form = gen.dress(ctx, p, None if form is None else form)
    arg = dressed[0] if single else dressed
    q = np.atleast_2d(plain)[:1] if single else plain
    got = np.asarray(ctx.call("distortedFromImage", lens.distortedFromImage, arg), dtype=float)
    ctx.check(got.shape == np.shape(plain[0] if single else plain), "shape", "shape %s" % (got.shape,))
    got = got.reshape(-1, 2)
    want = ref.distort(s, q)
    size = np.abs(want - [s["cx"], s["cy"]]).max(axis=-1)
    tol = 1e-8 + 1e-10 * size + 1e-11 * (np.abs([s["cx"], s["cy"]]).max() + np.abs(q).max(axis=-1)) * 50
    for i in range(len(q)):
        ctx.check((np.abs(got[i] - want[i]) <= tol[i]).all(), "forward", "the lens moves %s to %s instead of %s" % (q[i], got[i], want[i]), spec=s)
    # the inverse on the positions which the model itself distorts
    rq = np.hypot(*((q - [s["cx"], s["cy"]]) / sc).T)
    ok = rq <= limit * (1 - 1e-9)
    if ok.any():
        back = np.asarray(ctx.call("imageFromDistorted", lens.imageFromDistorted, want[ok][0] if single else want[ok]), dtype=float).reshape(-1, 2)
        for a, b, rr in zip(q[ok], back, rq[ok]):
            t = 1e-6 + 1e-9 * (np.abs(a).max() + np.abs(sc).max() * (1 + radial_error(s, rr)))
            ctx.check((np.abs(a - b) <= t).all(), "inverse", "removing the distortion of %s gives %s (radius %.3g)" % (a, b, rr), spec=s)
            ctx.seen(s["lens"], tuple(np.sign(s["k"])), int(rr * 4), form, single)


def strong(ctx):
    """ coefficients of any size: the polynomial is not invertible any more, but it still is the documented one """
    s = gen.spec(ctx, lens=ctx.pick(["brown", "abc"]), moderate=ctx.chance(0.7))
    s["k"] = tuple(float(v) for v in ctx.rng.uniform(-1, 1, 3) * ctx.pick([0.3, 1, 1, 3, 30]) * (ctx.rng.random(3) < 0.8))
    lens, cam = make(ctx, s)
    n = gen.batch_size(ctx, 60)
    sc, c = ref.lens_scale(s), np.array([s["cx"], s["cy"]])
    phi, r = ctx.rng.uniform(0, 2 * np.pi, n), ctx.rng.uniform(0, ctx.pick([0.5, 1, 1.5, 3]), n)
    p = np.stack([np.cos(phi), np.sin(phi)], axis=-1) * r[:, None] * sc + c
    judge(ctx, s, lens, p, r, -1.0, form="array")
    ctx.count["strong"] += n
    ctx.seen("strong", s["lens"], tuple(np.sign(s["k"])), bool(np.sum(s["k"]) > 1), bool(np.sum(s["k"]) < -1), int(np.log10(1e-9 + np.abs(s["k"]).max()) + 10))


def radial_error(s, r):
    return float(np.abs(ref.radial(s, r)))


def lens(ctx):
    specs = [gen.spec(ctx, lens=ctx.pick(["brown", "abc"])) for _ in range(2)]
    objs = [make(ctx, s) for s in specs]
    for _ in range(4):
        k = int(ctx.rng.integers(2))
        s, (l, cam) = specs[k], objs[k]
        p, r, limit = points(ctx, s, gen.batch_size(ctx, 600))
        judge(ctx, s, l, p, r, limit, single=ctx.chance(0.2), form=None if ctx.chance(0.7) else "array")
        # the optical centre does not move, alone or in a batch
        c = np.array([s["cx"], s["cy"]])
        for fn in ("distortedFromImage", "imageFromDistorted"):
            arg = c if ctx.chance(0.5) else np.vstack([p[:2], c])
            got = np.asarray(ctx.call(fn, getattr(l, fn), arg), dtype=float).reshape(-1, 2)[-1]
            ctx.check(np.abs(got - c).max() <= 1e-9 * (1 + np.abs(c).max()), "centre", "%s moves the optical centre %s to %s" % (fn, c, got), spec=s)
    ctx.sample(spec=s, image=p[0], distorted=ref.distort(s, p[0]))


def identity(ctx):
    """ no lens and lenses with zero coefficients change nothing """
    s = gen.spec(ctx, lens=ctx.pick(["none", "brown", "abc"]))
    if s["lens"] != "none":
        s["k"] = (0.0, 0.0, 0.0)
    l, cam = make(ctx, s)
    p = ctx.rng.uniform(-2, 3, (10, 2)) * [s["w"], s["h"]]
    for fn in ("distortedFromImage", "imageFromDistorted"):
        got = np.asarray(ctx.call(fn, getattr(l, fn), p), dtype=float)
        ctx.check(np.abs(got - p).max() <= 1e-8 * (1 + np.abs(p).max()), "identity", "%s of a lens without distortion moves points" % fn, spec=s, points=p, got=got)
    ctx.seen("identity", s["lens"], s["proj"])


def changing(ctx):
    """ the coefficients, focal lengths, centre or image size change during the life of the lens """
    s = gen.spec(ctx, lens=ctx.pick(["brown", "abc"]), moderate=True)
    cam = ctx.call("Camera", gen.make_camera, s)
    names = ["k1", "k2", "k3"] if s["lens"] == "brown" else ["a", "b", "c"]
    for _ in range(4):
        target = ctx.pick([cam, cam.lens])
        what = ctx.pick(["k", "k", "f", "c", "size"])
        if what == "k":
            s["k"] = gen.lens_brown(ctx) if s["lens"] == "brown" else gen.lens_abc(ctx)
            order = list(range(3))
            ctx.rng.shuffle(order)
            for j in order:
                setattr(target, names[j], s["k"][j])
        elif what == "f":
            s["fx"], s["fy"] = s["fx"] * ctx.rng.uniform(0.5, 2), s["fy"] * ctx.rng.uniform(0.5, 2)
            target.focallength_x_px, target.focallength_y_px = s["fx"], s["fy"]
        elif what == "c":
            s["cx"], s["cy"] = s["w"] * ctx.rng.uniform(0.3, 0.7), s["h"] * ctx.rng.uniform(0.3, 0.7)
            target.center_x_px, target.center_y_px = s["cx"], s["cy"]
        else:
            s["w"], s["h"] = int(s["w"] * ctx.rng.uniform(0.5, 2)) + 8, int(s["h"] * ctx.rng.uniform(0.5, 2)) + 8
            target.image_width_px, target.image_height_px = s["w"], s["h"]
        ctx.note(step=what, spec=dict(s))
        if ref.radial_limit(s) < 0.05:
            continue
        p, r, limit = points(ctx, s, 12)
        judge(ctx, s, cam.lens, p, r, limit)


SCENARIOS = dict(strong=(strong, 400, 6000), lens=(lens, 1600, 40000), identity=(identity, 400, 4000), changing=(changing, 800, 20000))
