"""C06 queries change nothing"""
import copy
import os

import numpy as np

from rtm import bus, gen, queries, ref

RULE = ("random sequences of all queries of the package on one world (camera, group) with all argument containers; a monitor on the "
        "event bus compares deep snapshots of all arguments and of all parameters before and after each client call, every query is asked "
        "again later; distinct = (query, containers of the arguments, repeated or not, which query came before)")
REQUIRE = {"judged:arguments": 20000, "judged:parameters": 20000, "judged:repeat": 6000, "judged:overwritten": 2000, "judged:in-place": 1200, "judged:ambient": 20000}

# operations which are meant to change the object
MUTATORS = {"setGPSpos", "rotateSpace", "load", "fit", "metropolis", "set_to_mean", "sample", "set_trace", "clearLogProbability",
            "scaleSpace", "setProjection", "set_value", "add", "setCamera", "addCube", "addRect", "addGrid", "set_fit_parameters",
            "setCameraParametersByPointCorrespondence", "addCustomoLogProbability", "draw_from_prior"}


def freeze(x, depth=0):
    """ an immutable deep copy of a value """
    if isinstance(x, np.ndarray):
        base = x
        out = [type(x).__name__, x.shape, str(x.dtype), x.tobytes()]
        # the memory which a view belongs to
        while isinstance(getattr(base, "base", None), np.ndarray):
            base = base.base
        if base is not x:
            out.append(base.tobytes())
        return tuple(out)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, freeze(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (str, int, float, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    return ("object", id(x))


def parameters(obj):
    """ all parameter values which are reachable from a camera, group or component """
    out = []
    for o in [obj] + [getattr(obj, k, None) for k in ("projection", "orientation", "lens")] + list(getattr(obj, "cameras", None) or []):
        ps = getattr(o, "parameters", None)
        names = getattr(ps, "parameters", None)
        if names is not None:
            out.append(tuple((k, freeze(getattr(ps, k)), freeze(getattr(ps.defaults, k))) for k in names))
            # and which of them were given by the user
            out.append(tuple(sorted(ps.get_fit_parameters())))
    return tuple(out)


def ambient():
    """ the state of the process which belongs to the user: random numbers, error handling, working directory, printing """
    name, keys, pos, has_gauss, gauss = np.random.get_state()
    return {"the state of the random numbers": (name, keys.tobytes(), pos, has_gauss, gauss), "the error handling of numpy": repr(np.geterr()),
            "the working directory": os.getcwd(), "the print options of numpy": repr(np.get_printoptions())}


class Purity:
    def __init__(self, ctx):
        self.ctx = ctx

    def before(self, op, obj, args, kwargs):
        return op, obj, args, kwargs, freeze(args), freeze(kwargs), parameters(obj) if obj is not None else None, ambient()

    def after(self, token, result, error):
        op, obj, args, kwargs, a, k, p, outside = token
        if op.split(".")[-1].startswith("add") or op.split(".")[-1] in MUTATORS:
            return
        self.ctx.check(freeze(args) == a and freeze(kwargs) == k, "arguments", "%s changed its arguments" % op, args=args, kwargs=kwargs)
        if obj is not None:
            self.ctx.check(parameters(obj) == p, "parameters", "%s changed a parameter" % op, op=op)
        if "random" not in op.lower():
            now = ambient()
            self.ctx.check(now == outside, "ambient", "%s changed %s" % (op, ", ".join(k for k in now if now[k] != outside[k])), op=op)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in "fc" else np.array_equal(a, b))
    return a == b or (a != a and b != b)


def overwrite(x):
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fiu":
        x[...] = 77
    elif isinstance(x, list):
        for v in x:
            overwrite(v)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            overwrite(v)


SPECIAL = [0.0, -0.0, 1e-300, -1e-14, 1e-14, 1e-9, -1e-6, 1e-3, 1.0, -1.0, 360.0, -180.0, 1e6, 1e15, np.nan, np.inf]


def hostile(ctx, a):
    """ numbers which a function may be tempted to clean up: tiny, negative zeros, huge, not-a-number """
    a = np.array(a)
    for _ in range(int(ctx.rng.integers(1, 4))):
        if a.size:
            a.reshape(-1)[ctx.rng.integers(a.size)] = ctx.pick(SPECIAL)
    if a.ndim > 1 and ctx.chance(0.2):
        a[ctx.rng.integers(len(a))] = a[ctx.rng.integers(len(a))]
    return a


def dressed(ctx, q, odd=False):
    """ other containers for the arguments, e.g. views of bigger arrays """
    args, forms = [], []
    if odd:
        q["args"] = [hostile(ctx, a) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else a for a in q["args"]]
        q["kw"] = {k: hostile(ctx, v) if isinstance(v, np.ndarray) and v.dtype.kind == "f" and ctx.chance(0.5) else v for k, v in q["kw"].items()}
    forms_ok = ["array", "fortran", "strided", "reversed", "readonly"] + (["list", "tuple"] if q["lists"] else [])
    for a in q["args"]:
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            a, _, f = gen.dress(ctx, a, ctx.pick(forms_ok))
            forms.append(f)
        args.append(a)
    kw = {}
    for k, v in q["kw"].items():
        if isinstance(v, np.ndarray):
            v, _, f = gen.dress(ctx, v, ctx.pick(["array", "strided", "readonly", "list"]))
            forms.append(f)
        kw[k] = v
    return args, kw, tuple(forms)


def in_place(ctx, name, q, args, kw):
    """ the caller changes its array in place and asks again: the answer is that for the new content (nothing of the old one is remembered) """
    cand = [a for a in list(args) + list(kw.values()) if isinstance(a, np.ndarray) and a.dtype.kind in "fu" and a.size and a.flags.writeable]
    if not cand:
        return
    ctx.call(name, q["fn"], *args, **kw)
    a = ctx.pick(cand)
    old = a.copy()
    try:
        if a.ndim > 1 and len(a) > 1 and ctx.chance(0.5):
            a[...] = old[::-1]
        elif a.dtype.kind == "f":
            a[...] = old * (1 + 1e-3)
        else:
            a[...] = 255 - old
        fresh = lambda v: same_layout(v) if isinstance(v, np.ndarray) else v
        results = []
        for x, y in (args, kw), ([fresh(v) for v in args], {k: fresh(v) for k, v in kw.items()}):
            try:
                results.append(copy.deepcopy(q["fn"](*x, **y)))
            except Exception as err:
                results.append(type(err).__name__)
        ctx.check(same_close(*results), "in-place", "%s was asked again after its argument was changed in place, its answer does not belong to the new content" % name,
                  args=args, kw=kw, got=results[0], want=results[1], old=old)
    finally:
        a[...] = old


def same_layout(a):
    """ a copy with the same memory layout (other strides may change the last digit of a result) """
    base = a
    while isinstance(base.base, np.ndarray):
        base = base.base
    if not (base.flags.c_contiguous or base.flags.f_contiguous):
        return a.copy(order="K")
    buffer = base.copy(order="K")
    out = np.ndarray(a.shape, a.dtype, buffer=buffer if buffer.flags.c_contiguous else buffer.T, offset=a.ctypes.data - base.ctypes.data, strides=a.strides)
    assert np.array_equal(out, a, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(out, a)
    return out


def same_close(a, b):
    """ equal up to the order of the floating point operations (which may depend on the memory layout of the arguments) """
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_close(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind not in "fiu" or b.dtype.kind not in "fiu":
        return same(a, b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9 * max(1.0, float(np.nanmax(np.abs(a[np.isfinite(a)]), initial=0))), equal_nan=True)


def sequence(ctx, small):
    w = queries.World(ctx, small=small)
    if ctx.chance(0.4):
        p = queries.visible(ctx, w.s, 3)
        w.cam.addHorizonInformation(p, uncertainty=10)
        w.cam.addObjectHeightInformation(p, p - [0, 5], 2.0, 1.0)
        w.cam.addObjectLengthInformation(p, p + [5, 0], 2.0, 1.0)
        w.cam.addLandmarkInformation(p, ctx.rng.normal(size=(3, 3)) * 30, [3, 3, 5])
        w.group.addBaselineInformation(20.0)
    monitor = Purity(ctx)
    bus.subscribe(monitor)
    kept, previous = [], None
    try:
        for _ in range(int(ctx.rng.integers(6, 14))):
            name = ctx.pick(queries.BATCH + queries.PLAIN + queries.OTHER + (queries.SMALL_ONLY * 3 + queries.SLOW if small else []))
            n = int(ctx.pick([1, 2, 3, 5, 12])) if ctx.chance(0.85) else gen.batch_size(ctx, 400)
            with bus.pause():
                q = queries.build_plain(ctx, w, name) if name in queries.PLAIN + queries.SMALL_ONLY else queries.build(ctx, w, name, n)
            odd = ctx.chance(0.25) and name in queries.BATCH + queries.PLAIN
            args, kw, forms = dressed(ctx, q, odd)
            if name in queries.BATCH and ctx.chance(0.2) and name != "getImageHorizon" and all(r == 0 or isinstance(r, int) for r in q["rows"]) and q["lists"]:
                args = [a[0] if i in q["rows"] else a for i, a in enumerate(args)]
            ctx.note(query=name, forms=forms)
            frozen = (freeze(args), freeze(kw))
            if odd:
                # the answer is not judged here, it is only that nothing may be changed
                try:
                    first = q["fn"](*args, **kw)
                except Exception:
                    first = None
                ctx.check((freeze(args), freeze(kw)) == frozen, "arguments", "%s changed its arguments" % name, args=args, kw=kw)
                if first is None:
                    continue
            else:
                first = ctx.call(name, q["fn"], *args, **kw)
            ctx.check((freeze(args), freeze(kw)) == frozen, "arguments", "%s changed its arguments" % name, args=args, kw=kw)
            keep = copy.deepcopy(first)
            shares = any(isinstance(a, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(a, r)
                         for a in args for r in (first if isinstance(first, (list, tuple)) else [first]))
            shares = shares or any(first is a for a in args)
            if not shares:
                overwrite(first)
                if ctx.chance(0.4):
                    again = ctx.call(name, q["fn"], *args, **kw)
                    ctx.check(same(again, keep), "overwritten", "%s answers differently after its first answer was overwritten" % name, first=keep, again=again)
            if ctx.chance(0.3):
                in_place(ctx, name, q, args, kw)
            kept.append((name, q, args, kw, keep))
            ctx.seen(name, forms, previous)
            previous = name
            if ctx.chance(0.5):
                name, q, args, kw, keep = ctx.pick(kept)
                again = ctx.call(name, q["fn"], *args, **kw)
                ctx.check(same(again, keep), "repeat", "%s answers differently when it is asked again" % name, first=keep, again=again, args=args, kw=kw)
        for name, q, args, kw, keep in kept:
            again = ctx.call(name, q["fn"], *args, **kw)
            ctx.check(same(again, keep), "repeat", "%s answers differently when it is asked again" % name, first=keep, again=again, args=args, kw=kw)
    finally:
        bus.unsubscribe(monitor)
    ctx.sample(spec=w.s, queries=[k[0] for k in kept])


def queries_any(ctx):
    sequence(ctx, False)


def queries_images(ctx):
    sequence(ctx, True)


def information(ctx):
    """ giving information to the camera does not change the arrays, and changing the arrays later does not matter to lists of copies """
    w = queries.World(ctx)
    n = 4
    a, b = queries.visible(ctx, w.s, n), queries.visible(ctx, w.s, n)
    lm = ctx.rng.normal(size=(n, 3)) * 30
    heights, unc = ctx.rng.uniform(1, 2, n), ctx.rng.uniform(0.5, 1, n)
    arrays = [a, b, lm, heights, unc]
    before = freeze(arrays)
    p0 = parameters(w.cam)
    w.cam.addObjectHeightInformation(a, b, heights, unc)
    w.cam.addObjectLengthInformation(a, b, heights, unc)
    w.cam.addHorizonInformation(a, uncertainty=unc * 10)
    w.cam.addLandmarkInformation(a, lm, [3, 3, 5])
    lat = ctx.rng.uniform(-1e-4, 1e-4, (n, 3)) + [w.s["lat"], w.s["lon"], 0]
    w.cam.addLandmarkInformationGPS(a, lat, [3, 3, 5])
    x = ctx.call("getLogProbability", w.cam.getLogProbability)
    y = ctx.call("getLogProbability", w.cam.getLogProbability)
    ctx.check(same(x, y), "repeat", "the log probability changes from %s to %s when it is asked again" % (x, y))
    ctx.check(freeze(arrays) == before, "arguments", "adding information changed the arrays")
    ctx.check(parameters(w.cam) == p0, "parameters", "adding information or computing the probability changed a parameter")
    ctx.seen("information", w.s["proj"], w.s["lens"])


SCENARIOS = dict(queries_any=(queries_any, 1300, 30000), queries_images=(queries_images, 500, 8000), information=(information, 300, 3000))
