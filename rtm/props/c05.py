"""C05 the behaviour depends only on the current values of the parameters"""
import copy
import pickle

import numpy as np

from rtm import gen, ref

RULE = ("worlds of 1-3 cameras with own or shared components (also as a group); random histories of parameter changes through all "
        "public ways, interleaved with queries; after every step all parameters of all cameras are read back and all transformations "
        "are compared with freshly built cameras; distinct = (kind of step, way, parameter, form of the value, sharing)")
ASSUMPTIONS = ["focallength_px is only read back directly after it was set", "headings are compared modulo 360 degrees",
               "value/uncertainty pairs are not used for focallength_px"]
REQUIRE = {"judged:readback": 20000, "judged:fresh": 8000, "judged:bystander": 2000, "judged:sampled": 200, "judged:copied": 300}

DEFAULTS = dict(elev=30, tilt=85, roll=0, heading=0, yaw=85, pitch=0, x=0, y=0, cx=0, cy=0, k1=0, k2=0, k3=0, a=0, b=0, c=0)
PROJ_KEYS = ["fx", "fy", "cx", "cy", "w", "h", "sw", "sh"]
NAMES = dict(gen.NAMES, sw="sensor_width_mm", sh="sensor_height_mm", k1="k1", k2="k2", k3="k3", a="a", b="b", c="c")


class Comp:
    """ the model of one component: what its parameters should be """

    def __init__(self, kind, s):
        self.kind, self.mean, self.default, self.s = kind, {}, {}, s
        if kind == "proj":
            keys = PROJ_KEYS
            s = dict(s, sw=None, sh=None)
            self.cls = s["proj"]
            self.default = dict(cx=0, cy=0, sw=17.3, sh=13.0)
        elif kind == "orient":
            keys = ["elev", "x", "y", "roll"] + (["tilt", "heading"] if s["orient"] == "thr" else ["yaw", "pitch"])
            self.cls = s["orient"]
            self.default = {k: DEFAULTS[k] for k in keys}
        else:
            keys = dict(none=[], brown=["k1", "k2", "k3"], abc=["a", "b", "c"])[s["lens"]]
            s = dict(zip(keys, s.get("k", ())))
            self.cls = self.s["lens"]
            self.default = {k: 0 for k in keys}
        self.keys = keys
        self.value = {k: s[k] for k in keys}
        if kind == "proj":
            self.value["sw"] = self.value["sh"] = None

    def current(self, key):
        v = self.value[key]
        return self.default[key] if v is None else v


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        n = int(ctx.pick([1, 2, 2, 3]))
        size = gen.image_size(ctx)
        base = [gen.spec(ctx, moderate=True) for _ in range(3)]
        for b in base[1:]:
            if ctx.chance(0.5):
                b["proj"] = base[0]["proj"]
        share = [n == 1 or ctx.chance(0.4) for _ in range(3)]
        self.comps = []
        self.objects = []
        self.group = None
        lists = []
        for kind, shared, make in zip(("proj", "orient", "lens"), share, (gen.make_projection, gen.make_orientation, gen.make_lens)):
            m = 1 if shared else n
            if kind == "lens" and not shared and ctx.chance(0.5):
                for b in base:
                    b["lens"], b["k"] = "brown", gen.lens_brown(ctx)
            comps = [Comp(kind, b) for b in base[:m]]
            objs = [ctx.call(kind, make, b) for b in base[:m]]
            lists.append((comps, objs))
        self.share = tuple(share)
        pick = lambda k, i: (lists[k][0][i % len(lists[k][0])], lists[k][1][i % len(lists[k][1])])
        self.cams, self.parts = [], []
        use_group = n > 1 and not all(share) and ctx.chance(0.5)
        if use_group:
            args = [l[1] if len(l[1]) > 1 else (l[1][0] if ctx.chance(0.5) else l[1]) for l in lists]
            self.group = ctx.call("CameraGroup", gen.ct().CameraGroup, *args)
            ctx.check(len(self.group) == n, "group-size", "a group of %d cameras has %d" % (n, len(self.group)))
        for i in range(n):
            comps, objs = zip(*[pick(k, i) for k in range(3)])
            self.cams.append(self.group[i] if use_group else ctx.call("Camera", gen.ct().Camera, *objs))
            self.parts.append(dict(zip(("proj", "orient", "lens"), comps)))
        self.gps = [dict(lat=0.0, lon=0.0) for _ in range(n)]
        self.raw = {id(c): o for l in lists for c, o in zip(*l)}
        self.prefix = {}
        for l in lists:
            for j, c in enumerate(l[0]):
                self.prefix[id(c)] = "" if len(l[0]) == 1 else "C%d_" % j
        self.all = [c for l in lists for c in l[0]]

    def spec(self, i):
        p, o, l = [self.parts[i][k] for k in ("proj", "orient", "lens")]
        s = dict(proj=p.cls, orient=o.cls, lens=l.cls, **self.gps[i])
        for c in (p, o):
            for k in c.keys:
                s[k] = float(c.current(k))
        s["k"] = tuple(float(l.current(k)) for k in l.keys)
        return s

    # --- the monitors -----------------------------------------------------------------------------
    def readback(self, what):
        for i, cam in enumerate(self.cams):
            for c in self.parts[i].values():
                for k in c.keys:
                    want = float(c.current(k))
                    views = [("camera", cam)]
                    views.append(dict(proj=("projection", cam.projection), orient=("orientation", cam.orientation), lens=("lens", cam.lens))[c.kind])
                    views.append(("parameters", cam.parameters))
                    if self.group is not None:
                        views.append(("group", self.group))
                    for name, obj in views:
                        attr = (self.prefix[id(c)] if name == "group" else "") + NAMES[k]
                        got = self.ctx.call("read " + attr, getattr, obj, attr)
                        diff = abs(got - want)
                        if k in ("heading", "pitch"):
                            diff = abs(ref.angle_diff(got, want))
                        self.ctx.check(diff <= 1e-9 * (1 + abs(want)), "readback", "%s of camera %d is %s (read from the %s), it was set to %s" % (
                            NAMES[k], i, got, name, want), step=what)
            for k in ("lat", "lon"):
                got = getattr(cam, NAMES[k])
                self.ctx.check(abs(got - self.gps[i][k]) < 1e-12, "readback", "%s of camera %d is %s, it was set to %s" % (NAMES[k], i, got, self.gps[i][k]), step=what)

    def behaviour(self, what):
        ctx = self.ctx
        for i, cam in enumerate(self.cams):
            s = self.spec(i)
            fresh = ctx.call("Camera", gen.make_camera, s)
            pts = ref.well_conditioned(s, gen.space_points(ctx, s, 12, ref))
            img = gen.image_points(ctx, s, 6)
            z = ctx.rng.uniform(-5, 5)
            for name, f in dict(
                    imageFromSpace=lambda c: c.imageFromSpace(pts), getRay=lambda c: c.getRay(img, normed=True)[1],
                    origin=lambda c: c.getRay(img)[0], spaceFromImage=lambda c: c.spaceFromImage(img, Z=z),
                    getPos=lambda c: c.getPos(), fov=lambda c: c.projection.getFieldOfView(),
                    distorted=lambda c: c.lens.distortedFromImage(img), undistorted=lambda c: c.lens.imageFromDistorted(img),
                    gps=lambda c: c.gpsFromSpace(pts[:3] / 1e3), border=lambda c: c.getImageBorder(resolution=max(s["w"], s["h"]) / 3),
                    horizon=lambda c: c.getImageHorizon([0, s["w"] / 2, s["w"]])).items():
                a = np.asarray(ctx.call(name, f, cam), dtype=float)
                b = np.asarray(ctx.call(name + " of a new camera", f, fresh), dtype=float)
                with np.errstate(all="ignore"):
                    scale = np.abs(b) + (np.abs([s["x"], s["y"], s["elev"]]).max() if name in ("spaceFromImage", "border") else 0) + \
                        (max(s["w"], s["h"]) if name not in ("getRay", "origin", "getPos", "gps") else 1)
                    if name == "imageFromSpace":
                        scale = scale + (ref.image_tolerance(s, pts) * 1e9)[:, None]
                    if name in ("spaceFromImage", "border"):
                        # far away points are sensitive
                        scale = scale + np.abs(b).max(axis=-1, keepdims=True) ** 2
                    ok = a.shape == b.shape and np.all((np.abs(a - b) <= 1e-8 * scale) | (np.isnan(a) & np.isnan(b)) | (a == b))
                ctx.check(ok, "fresh", "%s differs from that of a new camera with the same parameters" % name, step=what, camera=i, spec=s, got=a, want=b)


def new_value(ctx, key, comp, s):
    u = ctx.rng.random()
    now = comp.current(key)
    if key not in ("w", "h") and now and abs(now) <= 360:
        if u < 0.08:
            # hardly a change, but a change
            return float(now * (1 + ctx.rng.uniform(-1, 1) * 10.0 ** ctx.rng.integers(-7, -1)))
        if u < 0.12:
            return float(now)
        if u < 0.17 and key in ("x", "y", "tilt", "roll", "heading", "yaw", "pitch"):
            return float(-now)
    return _new_value(ctx, key, comp, s)


def _new_value(ctx, key, comp, s):
    if key in ("fx", "fy"):
        return comp.current(key) * ctx.rng.uniform(0.6, 1.7)
    if key in ("w", "h"):
        return int(comp.current(key) * ctx.rng.uniform(0.5, 2)) + 8
    if key == "cx":
        return gen.number(ctx, 0, comp.current("w"), [comp.current("w") / 2, 0])
    if key == "cy":
        return gen.number(ctx, 0, comp.current("h"), [comp.current("h") / 2, 0])
    if key in ("sw", "sh"):
        return ctx.rng.uniform(4, 40)
    if key == "elev":
        return gen.number(ctx, 0.5, 100, [30, 0.5])
    if key in ("x", "y"):
        return gen.number(ctx, -100, 100, [0])
    if key in ("heading", "yaw"):
        return gen.number(ctx, -1000, 1000, gen.ANGLES)
    if key in ("tilt", "roll", "pitch"):
        return gen.number(ctx, -180, 180, gen.ANGLES[:8]) if ctx.chance(0.8) else gen.number(ctx, -1000, 1000, gen.ANGLES)
    if comp.cls == "brown":
        return abs(gen.lens_brown(ctx)["k1 k2 k3".split().index(key)])
    return gen.lens_abc(ctx)["a b c".split().index(key)]


def step_set(ctx, w):
    comp = ctx.pick([c for c in w.all if c.keys])
    key = ctx.pick(comp.keys)
    users = [i for i in range(len(w.cams)) if comp in w.parts[i].values()]
    i = ctx.pick(users)
    cam = w.cams[i]
    form = ctx.pick(["plain", "plain", "plain", "int", "np", "pair", "none", "fit", "fitlist", "default", "focal"])
    value = new_value(ctx, key, comp, w.spec(i))
    if form == "focal":
        if comp.kind != "proj" or comp.mean.get("fx") is not None or comp.mean.get("fy") is not None:
            form = "plain"
    if form in ("none", "default") and key not in comp.default:
        form = "plain"
    if form == "int" and comp.kind == "lens":
        form = "plain"
    targets = [("camera", cam), ("parameters", cam.parameters), ("raw", w.raw[id(comp)])]
    targets.append((comp.kind, dict(proj=cam.projection, orient=cam.orientation, lens=cam.lens)[comp.kind]))
    if comp.kind == "proj" and w.parts[i]["lens"].cls != "none" and key not in ("sw", "sh"):
        targets.append(("via lens", cam.lens))
    if w.group is not None:
        targets.append(("group", w.group))
    way, obj = ctx.pick(targets)
    attr = (w.prefix[id(comp)] if way == "group" else "") + NAMES[key]
    ctx.note(step="set", way=way, parameter=attr, form=form, value=value, camera=i)
    if form in ("fit", "fitlist"):
        ps = obj if way == "parameters" else obj.parameters
        if form == "fit":
            ctx.call("set_fit_parameters", ps.set_fit_parameters, {attr: value})
        else:
            ctx.call("set_fit_parameters", ps.set_fit_parameters, [attr], [value])
        comp.value[key] = value
    elif form == "default":
        if key in ("heading", "pitch"):
            # beyond a full turn the camera replaces the value by the angle within a turn
            value = float(np.clip(value, -300, 300))
        d = getattr(obj, "defaults")
        ctx.call("set default", setattr, d, attr, value)
        comp.default[key] = value
        got = getattr(d, attr)
        ctx.check(got == value, "readback", "the default of %s is %s and not %s" % (attr, got, value))
    elif form == "focal":
        if way == "via lens":
            way, obj = "camera", cam
        attr = (w.prefix[id(comp)] if way == "group" else "") + "focallength_px"
        value = float(comp.current(ctx.pick(["fx", "fy"])))
        if ctx.chance(0.7):
            value *= float(ctx.rng.uniform(0.6, 1.7))
        ctx.call("set " + attr, setattr, obj, attr, value)
        comp.value["fx"] = comp.value["fy"] = value
        ctx.check(getattr(obj, attr) == value, "readback", "focallength_px is %s after it was set to %s" % (getattr(obj, attr), value))
    else:
        if form == "int":
            value = int(round(value)) or 1
        elif form == "np":
            value = ctx.pick([np.float64, np.float64])(value)
        elif form == "pair":
            if key in ("heading", "pitch"):
                value = float(np.clip(value, -300, 300))
            std = abs(value) * 1e-3 + 1e-9
            comp.mean[key] = (value, std)
            ctx.call("set " + attr, setattr, obj, attr, (value, std))
            comp.value[key] = value
            ctx.seen("set", form, way, key, w.share)
            return
        elif form == "none":
            value = None
        ctx.call("set " + attr, setattr, obj, attr, value)
        comp.value[key] = value
        comp.mean[key] = None
    if key in ("heading", "pitch") and comp.value[key] is not None and abs(comp.value[key]) > 360:
        comp.mean[key] = None
    ctx.seen("set", form, way, key, w.share)


def step_multi(ctx, w):
    """ several parameters at once, as a fit does it """
    i = int(ctx.rng.integers(len(w.cams)))
    cam = w.cams[i]
    pool = [(c, k) for c in w.parts[i].values() for k in c.keys]
    group = w.group is not None and ctx.chance(0.6)
    if group:
        pool = [(c, k) for c in w.all for k in c.keys]
        cam = w.group
    order = ctx.rng.permutation(len(pool))[:int(ctx.rng.integers(2, 6))]
    values, names = [], []
    for j in order:
        c, k = pool[j]
        v = new_value(ctx, k, c, w.spec(i))
        names.append((w.prefix[id(c)] if group else "") + NAMES[k])
        values.append(v)
        c.value[k] = v
        if k in ("heading", "pitch") and abs(v) > 360:
            c.mean[k] = None
    ctx.note(step="set_fit_parameters", names=names, values=values, camera="group" if group else i)
    mode = ctx.pick(["dict", "lists", "array", "extra"])
    if mode == "dict":
        ctx.call("set_fit_parameters", cam.parameters.set_fit_parameters, dict(zip(names, values)))
    elif mode == "extra":
        # names which are no parameters (e.g. nuisance parameters of a fit) are ignored
        ctx.call("set_fit_parameters", cam.parameters.set_fit_parameters, names + ["unknown_thing"], values + [3.0])
    else:
        ctx.call("set_fit_parameters", cam.parameters.set_fit_parameters, names, values if mode == "lists" else np.array(values, dtype=float))
    ctx.seen("multi", mode, tuple(sorted(names))[:3], w.share)


def step_default(ctx, w):
    """ a value is set, taken back with None, and the default is changed (in any order, through any of the ways) """
    comp = ctx.pick([c for c in w.all if c.default])
    key = ctx.pick(sorted(comp.default))
    i = ctx.pick([i for i in range(len(w.cams)) if comp in w.parts[i].values()])
    cam = w.cams[i]
    part = dict(proj=cam.projection, orient=cam.orientation, lens=cam.lens)[comp.kind]
    for form in ctx.pick([("value", "none", "default"), ("none", "default"), ("fit", "none", "default"), ("default", "none"), ("pair", "none", "default"), ("none", "default", "default"),
                          ("default", "value", "none"), ("none", "default", "value", "default")]):
        value = float(np.clip(new_value(ctx, key, comp, w.spec(i)), -300, 300)) if key in ("heading", "pitch") else new_value(ctx, key, comp, w.spec(i))
        way, obj = ctx.pick([("camera", cam), ("part", part), ("raw", w.raw[id(comp)])] + ([("group", w.group)] if w.group is not None else []))
        attr = (w.prefix[id(comp)] if way == "group" else "") + NAMES[key]
        ctx.note(step="defaults", form=form, way=way, parameter=attr, value=value, camera=i)
        if form == "default":
            ctx.call("set default", setattr, obj.defaults, attr, value)
            comp.default[key] = value
        elif form == "fit":
            ctx.call("set_fit_parameters", obj.parameters.set_fit_parameters, {attr: value})
            comp.value[key] = value
        elif form == "pair":
            ctx.call("set pair", setattr, obj, attr, (value, 1e-3))
            comp.value[key], comp.mean[key] = value, (value, 1e-3)
        else:
            value = None if form == "none" else value
            ctx.call("set", setattr, obj, attr, value)
            comp.value[key], comp.mean[key] = value, None
        ctx.seen("defaults", form, way, key, w.share)
    w.behaviour(ctx.log[-1])


def step_rotate(ctx, w):
    cand = [i for i in range(len(w.cams)) if w.parts[i]["orient"].cls == "thr"]
    if not cand:
        return step_set(ctx, w)
    i = ctx.pick(cand)
    o = w.parts[i]["orient"]
    delta = gen.number(ctx, -400, 400, gen.ANGLES)
    ctx.note(step="rotateSpace", delta=delta, camera=i)
    ctx.call("rotateSpace", w.cams[i].rotateSpace, delta)
    a = np.deg2rad(delta)
    x, y = float(o.current("x")), float(o.current("y"))
    o.value["heading"] = float(o.current("heading")) + delta
    o.value["x"], o.value["y"] = x * np.cos(a) + y * np.sin(a), y * np.cos(a) - x * np.sin(a)
    for k in ("heading", "x", "y"):
        o.mean[k] = None
    ctx.seen("rotate", int(delta // 90), w.share)


def step_gps(ctx, w):
    i = int(ctx.rng.integers(len(w.cams)))
    lat, lon = round(ctx.rng.uniform(-85, 85), 6), round(ctx.rng.uniform(-179, 179), 6)
    if ctx.chance(0.2):
        lat, lon = ctx.pick([(0.0, 0.0), (0.0, lon), (lat, 0.0), (lat, 180.0), (lat, -180.0), (-0.5, -0.25), (lat, 200.5), (lat, 359.0), (lat, 270.0)])
    elev = round(ctx.rng.uniform(1, 90), 3) if ctx.chance(0.8) else ctx.pick([0, 0.0, 1, 30, 0.25])
    form = ctx.pick(["string_height", "two", "three", "list2", "list3", "array", "string", "attr", "keyword", "pair", "reset"])
    if form == "reset":
        lat = lon = 0.0
    ctx.note(step="setGPSpos", form=form, lat=lat, lon=lon, elevation=elev, camera=i)
    cam = w.cams[i]
    o = w.parts[i]["orient"]
    with_elev = form in ("three", "list3", "keyword", "array", "string_height")
    if form == "two":
        ctx.call("setGPSpos", cam.setGPSpos, lat, lon)
    elif form == "three":
        ctx.call("setGPSpos", cam.setGPSpos, lat, lon, elev)
    elif form == "keyword":
        ctx.call("setGPSpos", cam.setGPSpos, lat=lat, lon=lon, elevation=elev)
    elif form == "list2":
        ctx.call("setGPSpos", cam.setGPSpos, [lat, lon])
    elif form == "list3":
        ctx.call("setGPSpos", cam.setGPSpos, [lat, lon, elev])
    elif form == "array":
        ctx.call("setGPSpos", cam.setGPSpos, np.array([lat, lon, elev]))
    elif form == "string":
        ctx.call("setGPSpos", cam.setGPSpos, "%.6f° %.6f°" % (lat, lon))
    elif form == "string_height":
        ctx.call("setGPSpos", cam.setGPSpos, "%.6f° %.6f°" % (lat, lon), elevation=elev)
    elif form == "reset":
        cam.gps_lat = cam.gps_lon = None
    elif form == "pair":
        cam.gps_lat, cam.gps_lon = (lat, 0.001), (lon, 0.001)
        cam.gps_lat, cam.gps_lon = lat, lon
    else:
        cam.gps_lat, cam.gps_lon = lat, lon
    w.gps[i].update(lat=lat, lon=lon)
    if with_elev:
        o.value["elev"] = elev
        o.mean["elev"] = None
    ctx.seen("gps", form, w.share)


def step_sample(ctx, w):
    """ sampling changes exactly the parameters with an uncertainty, set_to_mean brings their means back """
    i = int(ctx.rng.integers(len(w.cams)))
    cam = w.cams[i]
    for _ in range(int(ctx.rng.integers(0, 4))):
        c = ctx.pick([c for c in w.parts[i].values() if c.keys])
        k = ctx.pick(c.keys)
        if k in ("w", "h"):
            continue
        v = float(new_value(ctx, k, c, w.spec(i)))
        if k in ("heading", "pitch"):
            v = float(np.clip(v, -300, 300))
        std = abs(v) * 10.0 ** ctx.rng.uniform(-6, -3) + 1e-9
        ctx.call("set pair", setattr, cam, NAMES[k], (v, std))
        c.value[k], c.mean[k] = v, (v, std)
    uncertain = [(c, k) for c in w.parts[i].values() for k in c.keys if c.mean.get(k) is not None]
    mode = ctx.pick(["sample", "mean"])
    ctx.note(step=mode, camera=i, uncertain=[k for c, k in uncertain])
    if mode == "sample":
        ctx.call("sample", cam.sample)
        for c, k in uncertain:
            mean, std = c.mean[k]
            got = float(getattr(cam, NAMES[k]))
            ctx.check(abs(got - mean) <= 8 * std + 1e-12, "sampled", "%s was sampled as %s from (%s, %s)" % (NAMES[k], got, mean, std))
            c.value[k] = got
    else:
        ctx.call("set_to_mean", cam.set_to_mean)
        for c, k in uncertain:
            c.value[k] = c.mean[k][0]
    ctx.seen(mode, len(uncertain), w.share)


def step_copy(ctx, w):
    """ the history goes on with copies: of the whole world (shared components stay shared); the originals keep their values """
    i = int(ctx.rng.integers(len(w.cams)))
    old = w.cams, w.group, w.raw
    before = [snapshot(c) for c in w.cams]
    everything, new = dict(cams=w.cams, group=w.group, raw=[w.raw[id(c)] for c in w.all]), None
    if ctx.chance(0.4):
        # through a pipe to another process and back (which not all lenses support)
        try:
            new = pickle.loads(pickle.dumps(everything))
            ctx.seen("pickle")
        except (AttributeError, TypeError, pickle.PicklingError):
            pass
    if new is None:
        new = ctx.call("deepcopy", copy.deepcopy, everything)
    w.cams, w.group = new["cams"], new["group"]
    w.raw = {id(c): o for c, o in zip(w.all, new["raw"])}
    ctx.note(step="deepcopy")
    w.readback("deepcopy")
    for _ in range(3):
        ctx.pick([step_set, step_set, step_multi, step_rotate, step_gps])(ctx, w)
        w.readback(ctx.log[-1])
    comp = w.parts[i]["proj"]
    if comp.mean.get("fx") is None and comp.mean.get("fy") is None:
        f = float(comp.current("fx")) * float(ctx.rng.uniform(0.6, 1.7))
        ctx.note(step="focallength_px of a copy", value=f, camera=i)
        ctx.call("set focallength_px", setattr, ctx.pick([w.cams[i], w.cams[i].projection, w.cams[i].parameters]), "focallength_px", f)
        comp.value["fx"] = comp.value["fy"] = f
        w.readback(ctx.log[-1])
    w.behaviour(ctx.log[-1])
    for j, c in enumerate(old[0]):
        now = snapshot(c)
        ctx.check(now == before[j], "copied", "changing a copy of a camera changed the camera", camera=j, changed=[k for k in now if now[k] != before[j][k]])
    ctx.seen("copy", w.share, w.group is not None, w.parts[i]["proj"].cls)


STEPS = [step_set] * 6 + [step_multi] * 2 + [step_rotate, step_gps, step_sample, step_sample, step_default, step_default, step_copy]


def history(ctx):
    w = World(ctx)
    for n in range(int(ctx.rng.integers(3, 9))):
        step = ctx.pick(STEPS)
        step(ctx, w)
        w.readback(ctx.log[-1])
        if ctx.chance(0.6):
            w.behaviour(ctx.log[-1])
    w.readback("end")
    w.behaviour("end")
    ctx.sample(cameras=len(w.cams), share=w.share, steps=[l.get("step") for l in ctx.log])


def snapshot(cam):
    return {k: (getattr(cam, k), getattr(cam.defaults, k)) for k in cam.parameters.parameters}


def bystander(ctx):
    """ another camera is not affected by anything which happens to this one, and neither is the class """
    specs = [gen.spec(ctx, moderate=True) for _ in range(2)]
    cams = [ctx.call("Camera", gen.make_camera, s) for s in specs]
    pts = gen.space_points(ctx, specs[1], 8, ref)
    img = gen.image_points(ctx, specs[1], 8)
    before = snapshot(cams[1])
    ask = lambda: [np.asarray(cams[1].imageFromSpace(pts)), np.asarray(cams[1].spaceFromImage(img)), np.asarray(cams[1].getPos())]
    want = ask()
    a = cams[0]
    for _ in range(6):
        what = ctx.pick(["set", "set", "gps", "trace", "defaults", "info", "new", "load", "copy", "query"])
        if what == "set":
            k = ctx.pick([k for k in specs[0] if k in NAMES])
            setattr(a, NAMES[k], abs(specs[0][k]) * 1.1 + 1)
        elif what == "gps":
            a.setGPSpos(12.0, 13.0, 14.0)
        elif what == "trace":
            import pandas as pd
            a.set_trace(pd.DataFrame(dict(elevation_m=[3.0, 4.0], probability=[-1.0, -2.0])))
            ctx.call("set_to_mean", a.set_to_mean)
            a.parameters.trace = None
        elif what == "defaults":
            a.defaults.elevation_m = 77
        elif what == "info":
            a.addHorizonInformation([[1.0, 1.0]], uncertainty=5)
            ctx.check(len(cams[1].log_prob) == 0, "bystander", "information for one camera was added to another one")
        elif what == "new":
            ctx.call("Camera", gen.make_camera, gen.spec(ctx))
        elif what == "load":
            p = ctx.tmp("cam.json")
            a.save(p)
            a.load(p)
        elif what == "copy":
            b = copy.deepcopy(a)
            b.elevation_m = 3.0
            b.tilt_deg if "tilt_deg" in b.parameters.parameters else None
        else:
            a.imageFromSpace(pts)
        ctx.check(snapshot(cams[1]) == before, "bystander", "a change of one camera changed the parameters of another one", step=what)
        got = ask()
        ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(got, want)), "bystander", "a change of one camera changed the behaviour of another one",
                  step=what)
        ctx.seen("bystander", what)
    # a camera with default orientation has the documented defaults, whatever happened before
    c = ctx.call("Camera", gen.ct().Camera, gen.make_projection(specs[0]))
    for k in ("elev", "tilt", "roll", "heading", "x", "y"):
        ctx.check(getattr(c, NAMES[k]) == DEFAULTS[k], "class-defaults", "the default of %s became %s" % (NAMES[k], getattr(c, NAMES[k])))


SCENARIOS = dict(history=(history, 900, 20000), bystander=(bystander, 400, 6000))
