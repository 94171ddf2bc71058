"""C07 batch = pointwise, and the container does not matter"""
import numpy as np

from rtm import gen, queries, ref

RULE = ("every vectorised function with random valid batches (N = 1, 2, 3, ..., the numbers of the source, thousands; more dimensions where "
        "supported) against the same function called point by point, and against other containers of the same numbers; "
        "distinct = (function, size class, projection, lens, containers)")
ASSUMPTIONS = ["the functions of the GPS and ray modules are documented for (N x k) arrays only, more dimensions are not judged there",
               "equality up to rounding (1e-9 relative to the size of the answer, more for answers far away)"]
REQUIRE = {"judged:empty": 600, "judged:pointwise": 20000, "judged:container": 4000, "judged:shape": 4000, "judged:dimensions": 500, "judged:permutation": 1000, "judged:huge": 800, "points:huge": 500000}


def close(name, a, b, s):
    with np.errstate(all="ignore"):
        row = np.nanmax(np.where(np.isfinite(b), np.abs(b), 0), axis=-1, keepdims=True) if b.ndim else np.abs(b)
        scale = 1e-9 * (np.abs(b) + 1) + 1e-9 * np.where(row > 100, row, 0) * np.maximum(1, row / 100)
        if name in ("imageFromSpace", "imageFromGPS", "projection.imageFromCamera", "group.imagesFromSpace"):
            scale = scale + 1e-7 * np.maximum(1, row)
        if name in ("group.spaceFromImages", "ray.intersectionOfTwoLines"):
            scale = scale + 1e-6 * np.maximum(1, row) ** 2
        if name in ("getObjectHeight", "getObjectLength"):
            scale = scale + 1e-7 * np.maximum(1, row) ** 2
        if name == "ray.intersectionOfTwoLines" and np.any(~np.isfinite(b) & ~np.isfinite(a)):
            # parallel lines: no answer, in whatever way it is written
            return (np.abs(a - b) <= scale) | (~np.isfinite(a) & ~np.isfinite(b)) | (np.abs(b) > 1e7)
        return (np.abs(a - b) <= scale) | (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(b) > 1e7)


def part(q, i, squeeze=True):
    """ the arguments of one row (squeeze) or of some rows """
    take = lambda v: v[i]
    args = [take(np.asarray(a)) if k in q["rows"] else a for k, a in enumerate(q["args"])]
    kw = {k: (float(take(np.asarray(v))) if squeeze and np.ndim(take(np.asarray(v))) == 0 else take(np.asarray(v))) if k in q["rows"] else v for k, v in q["kw"].items()}
    return args, kw


def batch(ctx):
    w = queries.World(ctx)
    for _ in range(4):
        name = ctx.pick(queries.BATCH)
        n = gen.batch_size(ctx, 1500)
        q = queries.build(ctx, w, name, n)
        res = q["take"](ctx.call(name, q["fn"], *q["args"], **q["kw"]))
        ctx.check(res.shape[:1] == (n,), "shape", "%s of %d points has the shape %s" % (name, n, res.shape), spec=w.s)
        ctx.seen(name, min(n, 5) if n < 30 else "big", w.s["proj"], w.s["lens"])
        idx = list(range(n)) if n <= 8 else sorted(set([0, n - 1] + [int(v) for v in ctx.rng.integers(0, n, 5)]))
        rows = []
        for i in idx:
            args, kw = part(q, i)
            single = q["take"](ctx.call(name + " (single)", q["fn"], *args, **kw))
            ctx.check(single.shape == res.shape[1:], "shape", "%s of one point has the shape %s, a batch %s" % (name, single.shape, res.shape))
            ctx.check(np.all(close(name, res[i], single, w.s)), "pointwise", "%s of point %d of %d is %s, on its own it is %s" % (name, i, n, res[i], single),
                      spec=w.s, args=args, kw=kw)
        # any order and any part of the batch
        if n > 1:
            perm = ctx.rng.permutation(n)[:int(ctx.rng.integers(1, n + 1))]
            args, kw = part(q, perm, squeeze=False)
            other = q["take"](ctx.call(name + " (part)", q["fn"], *args, **kw))
            ctx.check(other.shape == res[perm].shape and np.all(close(name, other, res[perm], w.s)), "permutation",
                      "%s gives other answers for a part of the points in another order" % name, spec=w.s, n=n, kw=kw)
        # the big batch is also the concatenation of two parts
        if n > 3 and ctx.chance(0.5):
            k = int(ctx.rng.integers(1, n))
            pieces = []
            for sl in (slice(None, k), slice(k, None)):
                args, kw = part(q, sl, squeeze=False)
                pieces.append(q["take"](ctx.call(name + " (part)", q["fn"], *args, **kw)))
            joined = np.concatenate(pieces)
            ctx.check(joined.shape == res.shape and np.all(close(name, joined, res, w.s)), "permutation", "%s of two halves differs from the whole" % name, spec=w.s, n=n, k=k)
    ctx.sample(query=name, n=n, spec=w.s, first=res[0])


def containers(ctx):
    w = queries.World(ctx)
    for _ in range(4):
        name = ctx.pick(queries.BATCH)
        n = gen.batch_size(ctx, 60)
        q = queries.build(ctx, w, name, n)
        # whole numbers, so that integer containers hold the same values
        integer = ctx.chance(0.4) and name not in ("projection.getRay",)
        whole = set()
        # the arguments which belong to all points
        common = [k for k, v in enumerate(q["args"]) if k not in q["rows"] and isinstance(v, np.ndarray) and v.dtype.kind == "f"]
        if integer:
            some = 1 if ctx.chance(0.5) else 0.6
            for k in list(q["rows"]) + common:
                box = q["args"] if isinstance(k, int) else q["kw"]
                if name in ("spaceFromGPS", "imageFromGPS", "gps.spaceFromGPS") or not ctx.chance(some):
                    continue
                v = np.round(box[k])
                box[k] = v
                whole.add(k)
        res = q["take"](ctx.call(name, q["fn"], *q["args"], **q["kw"]))
        if name.startswith("ray.") and name != "ray.ray_intersect_triangle" and integer and not np.all(np.isfinite(res)):
            continue
        forms = ["fortran", "strided", "reversed", "readonly", "sub"] + (["list", "tuple"] if q["lists"] else []) + (["int", "intlist"] if integer else ["float32"])
        args, kw, used = list(q["args"]), dict(q["kw"]), []
        for k in list(q["rows"]) + common:
            box = args if isinstance(k, int) else kw
            form = ctx.pick(forms)
            if form in ("int", "intlist") and k not in whole:
                form = "array"
            if form == "intlist":
                box[k] = np.asarray(box[k]).astype(int)
                box[k] = box[k].tolist() if q["lists"] else box[k]
            elif form == "float32":
                # round before, so that both hold the same numbers; computed with single precision it may differ by that much
                continue
            else:
                box[k] = gen.dress(ctx, box[k], form)[0]
            used.append(form)
        other = q["take"](ctx.call("%s%s" % (name, tuple(used)), q["fn"], *args, **kw))
        ctx.check(other.shape == res.shape and np.all(close(name, other, res, w.s)), "container",
                  "%s gives another answer for the containers %s" % (name, used), spec=w.s, args=args, kw=kw, got=other, want=res)
        ctx.seen("container", name, tuple(used))


def dimensions(ctx):
    w = queries.World(ctx)
    for _ in range(3):
        for _ in range(30):
            name = ctx.pick(queries.BATCH)
            a, b = int(ctx.rng.integers(1, 5)), int(ctx.rng.integers(1, 5))
            q = queries.build(ctx, w, name, a * b)
            if q["nd"]:
                break
        else:
            return
        flat = q["take"](ctx.call(name, q["fn"], *q["args"], **q["kw"]))
        args = [np.asarray(v).reshape((a, b) + np.shape(v)[1:]) if k in q["rows"] else v for k, v in enumerate(q["args"])]
        kw = {k: np.asarray(v).reshape((a, b) + np.shape(v)[1:]) if k in q["rows"] else v for k, v in q["kw"].items()}
        if "lens" in name and w.s["lens"] == "none":
            continue
        res = q["take"](ctx.call(name + " (grid)", q["fn"], *args, **kw))
        ctx.check(res.shape == (a, b) + flat.shape[1:] and np.all(close(name, res.reshape(flat.shape), flat, w.s)), "dimensions",
                  "%s of a %d x %d grid of points differs from that of a list of these points" % (name, a, b), spec=w.s, kw=kw, got=res, want=flat)
        ctx.seen("grid", name, a, b)


def huge(ctx):
    """ the amounts of points of whole images """
    w = queries.World(ctx)
    name = ctx.pick(queries.BATCH)
    n = gen.huge_batch(ctx, 9000 if name in ("spaceFromImage.mesh", "ray.distanceOfTwoLines", "group.discanteBetweenRays", "lens.imageFromDistorted") else 70000)
    q = queries.build(ctx, w, name, n)
    res = q["take"](ctx.call(name, q["fn"], *q["args"], **q["kw"]))
    ctx.check(res.shape[:1] == (n,), "shape", "%s of %d points has the shape %s" % (name, n, res.shape), spec=w.s)
    idx = np.unique(np.concatenate([[0, 1, n // 2, n - 2, n - 1], ctx.rng.integers(0, n, 400)]))
    args, kw = part(q, idx, squeeze=False)
    few = q["take"](ctx.call(name + " (part)", q["fn"], *args, **kw))
    bad = ~close(name, res[idx], few, w.s)
    ctx.check(not np.any(bad), "huge", "%s of %d points gives for some of them something else than for these points on their own" % (name, n), spec=w.s, kw=kw,
              rows=idx[np.argwhere(bad)[:5, 0]])
    for i in (0, n - 1, int(ctx.rng.integers(n))):
        args, kw = part(q, i)
        single = q["take"](ctx.call(name + " (single)", q["fn"], *args, **kw))
        ctx.check(np.all(close(name, res[i], single, w.s)), "huge", "%s of point %d of %d is %s, on its own it is %s" % (name, i, n, res[i], single), spec=w.s)
    ctx.count["points:huge"] += n
    ctx.seen("huge", name, n // 10000, w.s["proj"], w.s["lens"])


def empty(ctx):
    """ a batch without any point has an answer without any point """
    w = queries.World(ctx)
    for _ in range(3):
        name = ctx.pick([n for n in queries.BATCH if n != "getImageHorizon"])
        q = queries.build(ctx, w, name, int(ctx.rng.integers(1, 5)))
        full = q["take"](ctx.call(name, q["fn"], *q["args"], **q["kw"]))
        args, kw = part(q, slice(0, 0), squeeze=False)
        res = q["take"](ctx.call(name + " (no points)", q["fn"], *args, **kw))
        ctx.check(res.shape == (0,) + full.shape[1:], "empty", "%s of no points has the shape %s, of %d points %s" % (name, res.shape, len(full), full.shape), spec=w.s, kw=kw)
        ctx.seen("empty", name, w.s["proj"], w.s["lens"])


SCENARIOS = dict(empty=(empty, 300, 4000), huge=(huge, 240, 4000), batch=(batch, 1500, 30000), containers=(containers, 1400, 25000), dimensions=(dimensions, 500, 8000))
