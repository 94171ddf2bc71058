"""C12 ray geometry helpers"""
import numpy as np

from rtm import gen

RULE = ("rays, lines and meshes of all sizes (soups, terrains, walls, closed boxes, coplanar stacks, degenerate triangles) aimed at and beside triangles, edges and corners; "
        "distinct = (function, kind of mesh, hit or miss, number of candidates, side of the triangle, shapes of the arguments)")
ASSUMPTIONS = ["rays which pass an edge or lie in a plane within rounding errors are only judged where all numbers are exactly representable",
               "lines with an angle below 1e-5 which are not exactly parallel are not judged (the code treats nearly parallel lines as parallel)"]
REQUIRE = {"judged:hit": 6000, "judged:miss": 4000, "judged:edge": 600, "judged:plane": 1500, "judged:lines": 4000, "judged:line-distance": 4000, "judged:parallel": 250, "judged:foot": 4000,
           "judged:area": 1500, "judged:wall": 1500}


def reference_hit(o, d, triangles, eps):
    """
    distance along the (unit) ray to the nearest triangle, by solving for barycentric coordinates.
    Returns (distance or None, whether the answer is beyond doubt)
    """
    best, sure = None, True
    for t in triangles:
        a, b, c = np.asarray(t, dtype=float)
        m = np.array([d, a - b, a - c]).T
        scale = np.linalg.norm(b - a) * np.linalg.norm(c - a)
        det = np.linalg.det(m)
        if scale == 0 or np.linalg.norm(np.cross(b - a, c - a)) <= 1e-12 * scale:
            continue
        if np.linalg.norm(np.cross(b - a, c - a)) <= 1e-9 * scale:
            sure = False
            continue
        if abs(det) < 1e-7 * scale:
            sure = False
            continue
        lam, u, v = np.linalg.solve(m, a - o)
        margin = min(u, v, 1 - u - v)
        shortest = min(np.linalg.norm(b - a), np.linalg.norm(c - a), np.linalg.norm(c - b))
        e = (eps + 1e-13 * (np.abs(o).max() + np.abs(a).max()) / shortest) * scale / abs(det)
        if abs(margin) < e:
            # on the edge: only harmless when it is behind
            if lam > -1e-6:
                sure = False
            continue
        if margin < 0:
            continue
        if abs(lam) < 1e-6 * (1 + np.abs(o).max()):
            sure = False
            continue
        if lam > 0 and (best is None or lam < best):
            best = lam
    return best, sure



def soup(ctx, n):
    t = ctx.rng.normal(size=(n, 3, 3)) * ctx.pick([0.3, 1, 3]) + ctx.rng.normal(size=(n, 1, 3)) * ctx.pick([1, 4])
    return t


def terrain(ctx):
    k = int(ctx.rng.integers(2, 5))
    z = ctx.rng.normal(size=(k + 1, k + 1)) * ctx.pick([0, 0.3, 1])
    p = np.array([[[i, j, z[i, j]] for j in range(k + 1)] for i in range(k + 1)], dtype=float)
    p[..., :2] -= k / 2
    t = []
    for i in range(k):
        for j in range(k):
            t.append([p[i, j], p[i + 1, j], p[i, j + 1]])
            t.append([p[i + 1, j + 1], p[i + 1, j], p[i, j + 1]])
    return np.array(t)


def box(ctx):
    c = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], dtype=float) * ctx.rng.uniform(0.5, 3, 3) + ctx.rng.normal(size=3)
    quads = [(0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 5, 4), (2, 3, 7, 6), (0, 2, 6, 4), (1, 3, 7, 5)]
    t = []
    for a, b, d, e in quads:
        t += [[c[a], c[b], c[d]], [c[a], c[d], c[e]]]
    return np.array(t)


def stack(ctx):
    """ the same triangle again and again at different depths, in random order """
    a = ctx.rng.normal(size=(3, 3)) * 2
    n = int(ctx.rng.integers(2, 7))
    shift = ctx.rng.permutation(n)[:, None, None] * ctx.rng.normal(size=(1, 1, 3))
    return a[None] + shift


def mesh(ctx):
    kind = ctx.pick(["soup", "soup", "one", "terrain", "box", "stack"])
    t = dict(soup=lambda: soup(ctx, int(ctx.rng.integers(2, 20))), one=lambda: soup(ctx, 1), terrain=lambda: terrain(ctx), box=lambda: box(ctx), stack=lambda: stack(ctx))[kind]()
    if ctx.chance(0.25):
        # triangles without an area
        m = int(ctx.rng.integers(1, 4))
        bad = soup(ctx, m)
        for b in bad:
            k = ctx.rng.integers(3)
            if k == 0:
                b[:] = b[0]
            elif k == 1:
                b[1] = b[0]
            else:
                b[:] = np.round(b)
                b[2] = b[0] + 2 * (b[1] - b[0])
        t = np.concatenate([t, bad])
        kind += "+degenerate"
    t = t[ctx.rng.permutation(len(t))]
    for i in range(len(t)):
        t[i] = t[i][ctx.rng.permutation(3)]
    if ctx.chance(0.15):
        # large and small triangles in one mesh
        factor = 10.0 ** ctx.rng.uniform(-ctx.pick([2, 4, 7]), 0, (len(t), 1, 1))
        t = t.mean(1, keepdims=True) + (t - t.mean(1, keepdims=True)) * factor
        kind += "+sizes"
    t = t * ctx.pick([1, 1, 1, 100, 0.01]) + ctx.rng.normal(size=3) * ctx.pick([0, 10])
    return kind, t


def rays(ctx):
    c = gen.ct()
    kind, t = mesh(ctx)
    size = np.abs(t - t.mean((0, 1))).max()
    center = t.mean((0, 1))
    n = ctx.pick([1, 1, 2, 3, int(ctx.rng.integers(4, 40)), len(t)]) if ctx.chance(0.97) else gen.batch_size(ctx, 300)
    # a bundle: nearly all of the rays go to the same triangle
    favourite = None
    if ctx.chance(0.06):
        n, favourite = int(ctx.rng.integers(40, 260)), t[ctx.rng.integers(len(t))]
    per_ray = ctx.chance(0.4)
    o = center + ctx.rng.normal(size=(n if per_ray else 1, 3)) * size * ctx.pick([0.5, 2, 5])
    d = np.empty((n, 3))
    for i in range(n):
        u = ctx.rng.random()
        tri = t[ctx.rng.integers(len(t))]
        if favourite is not None and ctx.chance(0.97):
            tri, u = favourite, 0.0
        if u < 0.6:
            w = ctx.rng.dirichlet([1, 1, 1])
        elif u < 0.75:
            w = ctx.rng.normal(size=3)
            w /= w.sum() or 1
        else:
            w = None
        if w is None:
            d[i] = ctx.rng.normal(size=3)
        else:
            d[i] = tri.T @ w - o[i if per_ray else 0]
        if u > 0.5 and u < 0.6:
            d[i] = -d[i]
    d *= np.exp(ctx.rng.uniform(-3, 3, (n, 1)) * ctx.pick([1, 1, 1, 4]))
    if (np.linalg.norm(d, axis=1) < 1e-12).any():
        return
    planes = ctx.chance(0.2)
    single = n == 1 and ctx.chance(0.6)
    oa = o[0] if (not per_ray or single) else o
    da = d[0] if single else d
    ta = t[0] if len(t) == 1 and ctx.chance(0.5) else t
    if ctx.chance(0.2):
        oa, da, ta = oa.tolist(), da.tolist(), ta.tolist()
    kw = dict(use_planes=True) if planes else {}
    got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, oa, da, ta, **kw), dtype=float)
    ctx.check(got.shape == ((3,) if single else (n, 3)), "shape", "%d rays gave %s" % (n, got.shape), origin=oa, direction=da)
    got = got.reshape(-1, 3)
    for i in range(n):
        start = o[i if per_ray else 0]
        unit = d[i] / np.linalg.norm(d[i])
        hit, sure = (plane_hit if planes else reference_hit)(start, unit, t, 1e-9)
        if not sure:
            ctx.count["unsure"] += 1
            continue
        mech = "plane" if planes else ("miss" if hit is None else "hit")
        if hit is None:
            ctx.check(np.isnan(got[i]).all(), mech, "the ray hits nothing, but the answer is %s" % got[i], origin=start, direction=d[i], triangles=t)
        else:
            want = start + hit * unit
            tol = 1e-7 * (np.abs(start).max() + np.abs(t).max() + hit)
            ctx.check(np.abs(got[i] - want).max() <= tol, mech, "the ray hits the mesh at %s, the answer is %s" % (want, got[i]), origin=start, direction=d[i], triangles=t)
        ctx.seen(kind, hit is None, favourite is not None, per_ray, single, planes, min(len(t), 5), isinstance(oa, list))
    ctx.sample(kind=kind, triangles=len(t), rays=n, first=got[0])


def plane_hit(o, d, triangles, eps):
    best, sure = None, True
    for t in triangles:
        a, b, c = np.asarray(t, dtype=float)
        nrm = np.cross(b - a, c - a)
        scale = np.linalg.norm(b - a) * np.linalg.norm(c - a)
        if scale == 0 or np.linalg.norm(nrm) <= 1e-12 * scale:
            continue
        nrm = nrm / np.linalg.norm(nrm)
        if abs(nrm @ d) < 1e-6 or np.linalg.norm(np.cross(b - a, c - a)) < 1e-6 * scale:
            sure = False
            continue
        lam = (nrm @ (a - o)) / (nrm @ d)
        if abs(lam) < 1e-6 * (1 + np.abs(o).max()):
            sure = False
            continue
        if lam > 0 and (best is None or lam < best):
            best = lam
    return best, sure


def edges(ctx):
    """ exactly representable numbers: the border belongs to the triangle, and so does an origin on the triangle """
    c = gen.ct()
    a, b = 2.0 ** ctx.rng.integers(0, 5), 2.0 ** ctx.rng.integers(0, 5)
    base = ctx.rng.integers(-8, 9, 3).astype(float)
    axes = ctx.rng.permutation(3)
    tri = np.array([base, base, base])
    tri[1, axes[0]] += a * ctx.pick([1, -1])
    tri[2, axes[1]] += b * ctx.pick([1, -1])
    u, v = tri[1] - tri[0], tri[2] - tri[0]
    k = ctx.pick([(0, 0), (1, 0), (0, 1), (0.5, 0), (0, 0.5), (0.5, 0.5), (0.25, 0.75), (0.125, 0.875), (0.25, 0), (0.25, 0.25)])
    p = tri[0] + k[0] * u + k[1] * v
    tri = tri[ctx.rng.permutation(3)]
    side = ctx.pick([1, -1])
    dist = float(ctx.pick([1, 2, 4, 0.5, 0]))
    o = p.copy()
    o[axes[2]] += side * dist
    d = np.zeros(3)
    d[axes[2]] = -side * ctx.pick([1.0, 2.0, 0.5])
    got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, o, d, tri), dtype=float)
    ctx.check(np.array_equal(got, p), "edge", "a ray to the point %s of the border of a triangle gave %s" % (p, got), triangle=tri, origin=o, direction=d)
    # just outside of it is outside
    q = tri.mean(0) + (p - tri.mean(0)) * (1 + 2.0 ** -20)
    q[axes[2]] = p[axes[2]]
    if k != (0.25, 0.25):
        o2 = q.copy()
        o2[axes[2]] += side * max(dist, 0.5)
        got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, o2, d, tri), dtype=float)
        ctx.check(np.isnan(got).all(), "edge", "a ray beside the border of a triangle gave %s" % got, triangle=tri, origin=o2, direction=d)
    # away from the triangle, parallel to it
    if dist > 0:
        got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, o, -d, tri), dtype=float)
        ctx.check(np.isnan(got).all(), "edge", "a ray away from the triangle gave %s" % got, triangle=tri, origin=o, direction=-d)
        e = np.zeros(3)
        e[axes[0]] = 1
        got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, np.array([o, o]), np.array([e, d]), tri), dtype=float)
        ctx.check(np.isnan(got[0]).all() and np.array_equal(got[1], p), "edge", "a ray parallel to the triangle, and one onto it gave %s" % got, triangle=tri, origin=o)
    else:
        # the ray lies in the plane and starts on the triangle: that is where it hits it
        e = np.zeros(3)
        e[axes[int(ctx.rng.integers(2))]] = ctx.pick([1, -1, 4])
        two = ctx.chance(0.5)
        got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, o, np.array([e, d]) if two else e, tri), dtype=float)
        ctx.check(all(np.array_equal(g, p) for g in got.reshape(-1, 3)), "edge", "a ray in the plane of a triangle, which starts at its point %s, gave %s" % (p, got), triangle=tri, origin=o, direction=e)
    ctx.seen("edge", k, side, dist, tuple(axes))


def lines(ctx):
    c = gen.ct()
    n = ctx.pick([1, 1, 2, 3, int(ctx.rng.integers(4, 60))]) if ctx.chance(0.95) else gen.batch_size(ctx, 400)
    single = n == 1 and ctx.chance(0.6)
    off = ctx.pick([0, 1, 100])
    p1, p2 = ctx.rng.normal(size=(2, 3)) * ctx.pick([1, 10]) + ctx.rng.normal(size=3) * off
    v1, v2 = ctx.rng.normal(size=(2, n, 3)) * np.exp(ctx.rng.uniform(-1, 2, (2, n, 1)))
    meet = ctx.rng.random(n) < 0.4
    x = ctx.rng.normal(size=(n, 3)) * 10
    v1[meet], v2[meet] = (x - p1)[meet], (x - p2)[meet]
    whole = ctx.rng.random(n) < 0.3
    v1[whole], v2[whole] = np.round(v1[whole] * 3), np.round(v2[whole] * 3)
    par = ctx.rng.random(n) < (0.15 if ctx.chance(0.5) else 0)
    v1[par] = np.round(v1[par] * 2)
    v2[par] = v1[par] * ctx.pick([1, -1, 2, 4, -0.5])
    near = (ctx.rng.random(n) < (0.3 if ctx.chance(0.4) else 0)) & ~par
    v2[near] = v1[near] * ctx.pick([1, -1, 3]) + ctx.rng.normal(size=(n, 3))[near] * np.linalg.norm(v1[near], axis=1)[:, None] * 10.0 ** ctx.rng.uniform(-4.5, -1)
    bad = (np.abs(v1).max(1) == 0) | (np.abs(v2).max(1) == 0)
    v1[bad], v2[bad] = [1, 0, 0], [0, 1, 0]
    par &= ~bad
    a, b = (v1[0], v2[0]) if single else (v1, v2)
    got = np.asarray(ctx.call("intersectionOfTwoLines", c.ray.intersectionOfTwoLines, p1, a, p2, b), dtype=float)
    dist = np.asarray(ctx.call("distanceOfTwoLines", c.ray.distanceOfTwoLines, p1, a, p2, b), dtype=float)
    ctx.check(got.shape == ((3,) if single else (n, 3)) and dist.shape == (() if single else (n,)), "shape", "%d lines gave %s and %s" % (n, got.shape, dist.shape))
    got, dist = got.reshape(-1, 3), np.atleast_1d(dist)
    for i in range(n):
        e, f = v1[i] / np.linalg.norm(v1[i]), v2[i] / np.linalg.norm(v2[i])
        s = np.linalg.norm(np.cross(e, f))
        size = np.abs(p1 - p2).max() + 1e-9 * (np.abs(p1).max() + 1)
        if par[i]:
            want = np.linalg.norm(p2 - p1 - e * (e @ (p2 - p1)))
            ctx.check(abs(dist[i] - want) <= 1e-9 * (1 + size), "parallel", "the distance of two parallel lines is %s and not %s" % (dist[i], want), p1=p1, v1=v1[i], p2=p2, v2=v2[i])
            ctx.seen("parallel", single, n > 1, bool(par.all()))
            continue
        if s < 1e-5 or s * np.linalg.norm(v1[i]) * np.linalg.norm(v2[i]) < 1e-6:
            continue
        m = np.array([e, -f]).T
        k = np.linalg.lstsq(m, p2 - p1, rcond=None)[0]
        q1, q2 = p1 + k[0] * e, p2 + k[1] * f
        tol = 1e-11 * (np.abs(p1).max() + np.abs(p2).max() + np.abs(k).max() + 1) / s ** 2
        ctx.check(np.abs(got[i] - (q1 + q2) / 2).max() <= tol, "lines", "the middle between two lines is %s and not %s" % (got[i], (q1 + q2) / 2), p1=p1, v1=v1[i], p2=p2, v2=v2[i])
        want = abs(np.cross(e, f) @ (p2 - p1)) / s
        tol = 1e-11 * (np.abs(p1).max() + np.abs(p2).max() + 1) / s
        ctx.check(abs(dist[i] - want) <= tol, "line-distance", "the distance of two lines is %s and not %s" % (dist[i], want), p1=p1, v1=v1[i], p2=p2, v2=v2[i])
        ctx.seen("lines", bool(meet[i]), single, n > 1, bool(par.any()), int(np.log10(s)))
    ctx.sample(lines=n, distance=dist[0])


def feet(ctx):
    c = gen.ct()
    n = ctx.pick([1, 2, 3, int(ctx.rng.integers(4, 60))]) if ctx.chance(0.93) else gen.batch_size(ctx, 500)
    off = ctx.rng.normal(size=3) * ctx.pick([0, 1, 1000])
    o = ctx.rng.normal(size=3) + off
    r, p = ctx.rng.normal(size=(n, 3)) * np.exp(ctx.rng.uniform(-4, 4, (n, 1))), ctx.rng.normal(size=(n, 3)) * ctx.pick([1, 100]) + off
    if ctx.chance(0.2):
        p[0] = o
    if ctx.chance(0.2):
        r[:, 0] = 0
    mode = ctx.pick(["one", "rays", "points", "both"])
    if mode == "one":
        got = np.asarray(ctx.call("getClosestPointFromLine", c.ray.getClosestPointFromLine, o, r[0], p[0]), dtype=float)
        ctx.check(got.shape == (3,), "shape", "one line and one point gave %s" % (got.shape,))
        r, p, got = r[:1], p[:1], got[None]
        d = float(ctx.call("distanceLinePoint", c.ray.distanceLinePoint, o, r[0], p[0]))
    else:
        ra, pa = dict(rays=(r, p[0]), points=(r[0], p), both=(r, p))[mode]
        got = np.asarray(ctx.call("getClosestPointFromLine", c.ray.getClosestPointFromLine, o, ra, pa), dtype=float)
        ctx.check(got.shape == (n, 3), "shape", "%d lines and points (%s) gave %s" % (n, mode, got.shape))
        r, p = np.broadcast_to(ra, (n, 3)), np.broadcast_to(pa, (n, 3))
        d = None
    for i in range(len(got)):
        u = r[i] / np.linalg.norm(r[i])
        want = o + u * (u @ (p[i] - o))
        tol = 1e-12 * (np.abs(o).max() + np.abs(p[i]).max() + 1) * 10
        ctx.check(np.abs(got[i] - want).max() <= tol, "foot", "the closest point is %s and not %s" % (got[i], want), origin=o, ray=r[i], point=p[i], mode=mode)
        if d is not None:
            ctx.check(abs(d - np.linalg.norm(want - p[i])) <= tol, "foot", "the distance is %s and not %s" % (d, np.linalg.norm(want - p[i])), origin=o, ray=r[i], point=p[i])
        ctx.seen("foot", mode, bool((p[i] == o).all()), min(len(got), 4))


def areas(ctx):
    c = gen.ct()
    dim = ctx.pick([2, 3])
    t = ctx.rng.normal(size=(3, dim)) * np.exp(ctx.rng.uniform(-3, 5))
    e, f = np.zeros(3), np.zeros(3)
    e[:dim], f[:dim] = t[1] - t[0], t[2] - t[0]
    want = np.linalg.norm(np.cross(e, f)) / 2
    longest = max(np.linalg.norm(e), np.linalg.norm(f), np.linalg.norm(e - f))
    got = float(ctx.call("areaOfTriangle", c.ray.areaOfTriangle, t))
    if want > 1e-3 * longest ** 2:
        ctx.check(abs(got - want) <= 1e-6 * want, "area", "the area of a triangle is %s and not %s" % (got, want), triangle=t)
    # simple quadrilaterals: star shaped around the origin, in both directions
    n = int(ctx.rng.integers(1, 12))
    ang = np.sort(ctx.rng.uniform(0, 2 * np.pi, (n, 4)), axis=1)
    rad = ctx.rng.uniform(0.2, 3, (n, 4))
    q = np.stack([rad * np.cos(ang), rad * np.sin(ang)], -1) + ctx.rng.normal(size=2) * ctx.pick([0, 5])
    if ctx.chance(0.5):
        q = q[:, ::-1]
    shoelace = np.zeros(n)
    for i in range(4):
        a, b = q[:, i], q[:, (i + 1) % 4]
        shoelace += (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]) / 2
    shoelace = np.abs(shoelace)
    arg = q
    if ctx.chance(0.3):
        arg = np.concatenate([q, np.full((n, 4, 1), 7.0)], -1)
    if ctx.chance(0.3):
        one = ctx.call("areaOfQuadrilateral", c.ray.areaOfQuadrilateral, arg[0].tolist() if ctx.chance(0.5) else arg[0])
        ctx.check(np.shape(one) == () and abs(one - shoelace[0]) <= 1e-10 * (1 + shoelace[0]), "area", "the area of a quadrilateral is %s and not %s" % (one, shoelace[0]), points=q[0])
    got = np.asarray(ctx.call("areaOfQuadrilateral", c.ray.areaOfQuadrilateral, arg))
    ctx.check(got.shape == (n,) and np.all(np.abs(got - shoelace) <= 1e-10 * (1 + shoelace) * 30), "area", "the areas of quadrilaterals are %s and not %s" % (got, shoelace), points=q)
    ctx.seen("area", dim, min(n, 4), arg.shape[-1])


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def walls(ctx):
    """ the wall over a line: every ray to a point of it hits it, rays beside it do not """
    c = gen.ct()
    n = int(ctx.rng.integers(2, 7))
    line = np.cumsum(ctx.rng.uniform(-1, 3, (n, 2)) + [0.5, 0], axis=0)
    z0, z1 = float(ctx.rng.uniform(-2, 0)), float(ctx.rng.uniform(0.5, 4))
    # upwards or downwards
    ends = (z0, z1) if ctx.chance(0.75) else (z1, z0)
    m = np.asarray(ctx.call("extrudeLine", c.ray.extrudeLine, line.tolist() if ctx.chance(0.5) else line, *ends), dtype=float)
    ctx.check(m.ndim == 3 and m.shape[1:] == (3, 3), "wall", "the mesh has the shape %s" % (m.shape,))
    ctx.check(m[..., 2].min() == z0 and m[..., 2].max() == z1, "wall", "the wall reaches from %s to %s" % (m[..., 2].min(), m[..., 2].max()))
    for _ in range(6):
        i = int(ctx.rng.integers(n - 1))
        a, b = line[i], line[i + 1]
        k, z = ctx.rng.uniform(0.02, 0.98), z0 + (z1 - z0) * ctx.rng.uniform(0.02, 0.98)
        target = np.append(a + k * (b - a), z)
        normal = np.array([b[1] - a[1], a[0] - b[0], 0])
        if np.linalg.norm(normal) < 1e-3:
            continue
        normal /= np.linalg.norm(normal)
        # from very near no other part of the wall is in between
        start = target + normal * 1e-3 * ctx.pick([1, -1])
        other = min([1e9] + [abs(cross2(line[j + 1] - line[j], target[:2] - line[j])) / np.linalg.norm(line[j + 1] - line[j]) for j in range(n - 1) if j != i])
        if other < 1e-2:
            continue
        got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, start, target - start, m), dtype=float)
        ctx.check(np.abs(got - target).max() < 1e-7, "wall", "a ray to the point %s of the wall gave %s" % (target, got), line=line, z0=z0, z1=z1)
        for out in (z1 + 0.01, z0 - 0.01):
            got = np.asarray(ctx.call("ray_intersect_triangle", c.ray.ray_intersect_triangle, np.append(start[:2], out), target - start, m), dtype=float)
            # it may hit another part only if that is high enough, which it is not
            ctx.check(np.isnan(got).all(), "wall", "a ray above or below the wall hit it at %s" % got, line=line, z0=z0, z1=z1)
        ctx.seen("wall", n, i)
    before = np.asarray(c.ray.extrudeLine(line[:1], z0, z1))
    ctx.check(before.size == 0, "wall", "a single point became a wall")


SCENARIOS = dict(rays=(rays, 3000, 60000), edges=(edges, 500, 5000), lines=(lines, 900, 20000), feet=(feet, 700, 10000), areas=(areas, 700, 8000), walls=(walls, 500, 8000))
