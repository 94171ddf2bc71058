"""C08 save / load"""
import json
import os

import numpy as np

from rtm import gen, ref

RULE = ("random cameras and components (3 projections, 2 orientations, 3 lenses; values as int, float, numpy numbers, defaults, pairs with "
        "uncertainty, set at construction or later) are saved and loaded into new and into used objects; saves that fail on purpose; "
        "distinct = (object kind, projection, orientation, lens, target of the load, way of setting)")
ASSUMPTIONS = ["uncertainties, traces and fit information are not part of the documented file format"]
REQUIRE = {"judged:restored": 15000, "judged:behaviour": 3000, "judged:kept": 300, "judged:unchanged": 2000, "judged:complete": 500}


def values(obj):
    return {k: getattr(obj, k) for k in obj.parameters.parameters if k != "focallength_px"}


def hostile_values(ctx, s, cam):
    """ values of other types and from other ways than the constructor """
    how = []
    for key, name in gen.NAMES.items():
        if key not in s or not ctx.chance(0.3):
            continue
        v = s[key]
        kind = ctx.pick(["float64", "float32", "int", "int64", "0d", "tuple", "neg0", "long"])
        if key in ("w", "h"):
            kind = ctx.pick(["int64", "int32", "int"])
            v = {"int64": np.int64, "int32": np.int32, "int": int}[kind](v)
        elif kind == "float64":
            v = np.float64(v)
        elif kind == "float32":
            v = np.float32(v)
        elif kind in ("int", "int64"):
            v = (int if kind == "int" else np.int64)(int(round(v)) if not key.startswith("f") else max(1, int(round(v))))
        elif kind == "0d":
            v = np.array(float(v))
        elif kind == "tuple":
            setattr(cam, name, (float(v), 0.1))
            how.append(kind)
            continue
        elif kind == "neg0" and key in ("x", "y", "heading", "roll", "yaw"):
            v = -0.0
        elif kind == "long":
            v = float(v) * (1 + 1e-15) + 1e-17
        setattr(cam, name, v)
        how.append(kind)
    return tuple(sorted(set(how)))


def same_number(a, b):
    a, b = float(np.asarray(a)), float(np.asarray(b))
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def used_camera(ctx):
    s = gen.spec(ctx)
    cam = gen.make_camera(s)
    cam.imageFromSpace([[1.0, 2.0, 3.0]])
    if ctx.chance(0.3):
        cam.setGPSpos(10, 20, 30)
    return cam


def questions(ctx, s):
    pts = ref.well_conditioned(s, gen.space_points(ctx, s, 10, ref))
    img = gen.image_points(ctx, s, 8)
    return dict(imageFromSpace=lambda c: c.imageFromSpace(pts), getRay=lambda c: c.getRay(img, normed=True)[1], getPos=lambda c: c.getPos(),
                lens=lambda c: c.lens.distortedFromImage(img), unlens=lambda c: c.lens.imageFromDistorted(img),
                fov=lambda c: c.projection.getFieldOfView(), gps=lambda c: c.gpsFromSpace(np.array([[10.0, 20.0, 3.0], [-5, 7, 1.0]])),
                ground=lambda c: c.spaceFromImage(img))


def answers(ctx, cam, qs):
    return {k: np.asarray(ctx.call(k, q, cam), dtype=float) for k, q in qs.items()}


def compare(ctx, a, b, what, **data):
    for k in a:
        with np.errstate(all="ignore"):
            tol = 1e-9 * (1 + np.abs(a[k])) + (1e-7 * np.nanmax(np.abs(a[k]), initial=1) if k in ("ground", "imageFromSpace") else 0)
            ok = a[k].shape == b[k].shape and np.all((np.abs(a[k] - b[k]) <= tol) | (np.isnan(a[k]) & np.isnan(b[k])) | (a[k] == b[k]) | (np.abs(a[k]) > 1e9))
        ctx.check(ok, "behaviour", "%s: %s is different after saving and loading" % (what, k), before=a[k], after=b[k], **data)


def camera(ctx):
    c = gen.ct()
    s = gen.spec(ctx)
    cam = ctx.call("Camera", gen.make_camera, s, gps=ctx.chance(0.7))
    how = ()
    if ctx.chance(0.5):
        how = hostile_values(ctx, s, cam)
    if ctx.chance(0.3):
        cam = ctx.call("Camera", c.Camera, gen.make_projection(s))      # everything else by default
        if ctx.chance(0.5):
            cam = ctx.call("Camera", c.Camera, gen.make_projection(s), lens=gen.make_lens(s))
        how = ("defaults",)
    if ctx.chance(0.3):
        form = ctx.pick(["3", "pair", "string", "array"])
        lat, lon = round(s["lat"], 5), round(s["lon"], 5)
        if form == "3":
            cam.setGPSpos(lat, lon, 17.5)
        elif form == "pair":
            cam.setGPSpos((lat, lon))
        elif form == "array":
            cam.setGPSpos(np.array([lat, lon, 11.0]))
        else:
            cam.setGPSpos("%.5f° %.5f°" % (lat, lon))
        how += (form,)
    s = gen.spec_of(cam)
    if ctx.chance(0.4):
        cam.imageFromSpace(gen.space_points(ctx, s, 3, ref))
    path = ctx.tmp("cam.json")
    before = values(cam)
    qs = questions(ctx, s)
    asked = answers(ctx, cam, qs)
    if ctx.chance(0.5):
        # an existing longer file is replaced completely
        with open(path, "w") as fp:
            fp.write(json.dumps({"pos_x_m": 1e9, "rest": "x" * 20000}))
    ctx.call("save", cam.save, path)
    ctx.check({k: repr(v) for k, v in values(cam).items()} == {k: repr(v) for k, v in before.items()}, "unchanged", "save changed the camera", spec=s)
    content = open(path, "rb").read()
    ctx.call("save", cam.save, path)
    ctx.check(open(path, "rb").read() == content, "unchanged", "saving twice gives different files", spec=s)
    target = ctx.pick(["load_camera", "load_camera", "other", "self", "self-changed"])
    if target == "load_camera":
        new = ctx.call("load_camera", c.load_camera, path)
    elif target == "other":
        new = used_camera(ctx)
        ctx.call("load", new.load, path)
    else:
        new = cam
        if target == "self-changed":
            for key, name in gen.NAMES.items():
                if key in s:
                    setattr(new, name, float(s[key]) + 1.5)
        ctx.call("load", new.load, path)
    ctx.note(target=target, how=how, spec=s)
    for part in ("projection", "orientation", "lens"):
        want = dict(projection=gen.PROJ[s["proj"]], orientation="SpatialOrientationYawPitchRoll" if s["orient"] == "ypr" else "SpatialOrientation",
                    lens=dict(none="NoDistortion", brown="BrownLensDistortion", abc="ABCDistortion")[s["lens"]])[part]
        ctx.check(type(getattr(new, part)).__name__ == want, "kind", "the %s is a %s after loading, it was a %s" % (part, type(getattr(new, part)).__name__, want), spec=s)
    after = values(new)
    ctx.check(set(after) == set(before), "restored", "other parameters after loading: %s" % sorted(set(after) ^ set(before)), spec=s)
    for k in before:
        ctx.check(same_number(before[k], after[k]), "restored", "%s was %s, after loading it is %s" % (k, before[k], after[k]), spec=s, target=target)
    if "float32" not in how:    # numbers of single precision are computed with single precision
        compare(ctx, asked, answers(ctx, new, qs), "camera", spec=s, target=target)
    ctx.check(open(path, "rb").read() == content, "unchanged", "loading changed the file")
    # the file of the loaded camera restores the same again, and so does a change afterwards
    path2 = ctx.tmp("cam2.json")
    ctx.call("save", new.save, path2)
    third = ctx.call("load_camera", c.load_camera, path2)
    for k in before:
        ctx.check(same_number(before[k], getattr(third, k)), "restored", "%s was %s, after the second generation it is %s" % (k, before[k], getattr(third, k)), spec=s)
    # a loaded camera reacts to changes like any other
    key = ctx.pick(["elev", "x", "fx", "cx", "w"])
    v = abs(float(s[key])) * 1.2 + 3
    if key == "w":
        v = int(v)
    setattr(third, gen.NAMES[key], v)
    fresh = gen.make_camera(dict(gen.spec_of(new), **{key: v}))
    compare(ctx, answers(ctx, fresh, qs), answers(ctx, third, qs), "a loaded camera whose %s is changed" % key, spec=s)
    ctx.seen("camera", s["proj"], s["orient"], s["lens"], target, how)
    ctx.sample(spec=s, target=target, file=content[:300].decode())


def component(ctx):
    s = gen.spec(ctx, orient=ctx.pick(["thr", "ypr"]), lens=ctx.pick(["none", "brown", "abc"]))
    kind = ctx.pick(["projection", "orientation", "lens"])
    make = dict(projection=gen.make_projection, orientation=gen.make_orientation, lens=gen.make_lens)[kind]
    obj = ctx.call(kind, make, s)
    bound = kind == "lens" and ctx.chance(0.5)
    if bound:
        obj = ctx.call("Camera", gen.make_camera, s).lens
    for k in list(values(obj)):
        if ctx.chance(0.3):
            v = getattr(obj, k)
            setattr(obj, k, ctx.pick([np.float64, float])(v * 1.01))
    path = ctx.tmp("part.json")
    before = values(obj)
    ctx.call("save " + kind, obj.save, path)
    ctx.check(values(obj) == before, "unchanged", "save changed the %s" % kind)
    t = gen.spec(ctx, proj=s["proj"], orient=s["orient"], lens=s["lens"])
    new = ctx.call(kind, make, t)
    owner = None
    if bound or ctx.chance(0.5):
        owner = ctx.call("Camera", gen.make_camera, t)
        new = getattr(owner, kind)
    ctx.call("load " + kind, new.load, path)
    after = values(new)
    for k in before:
        if k not in after:
            ctx.check(kind == "lens", "restored", "%s is missing after loading" % k)
            continue
        ctx.check(same_number(before[k], after[k]), "restored", "%s of the %s was %s, after loading it is %s" % (k, kind, before[k], after[k]), spec=s, other=t)
    # what it computes
    if kind == "projection":
        p = ctx.rng.normal(size=(6, 3)) * [5, 5, 1] - [0, 0, 8]
        a, b = obj.imageFromCamera(p), new.imageFromCamera(p)
    elif kind == "orientation":
        p = ctx.rng.normal(size=(6, 3)) * 30
        a, b = obj.cameraFromSpace(p), new.cameraFromSpace(p)
    elif bound or s["lens"] == "none":
        p = gen.image_points(ctx, gen.spec_of(owner) if owner is not None else s, 6)
        a, b = obj.distortedFromImage(p), new.distortedFromImage(p)
    else:
        p = a = b = np.zeros(1)
    ctx.check(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True), "behaviour", "the loaded %s behaves differently" % kind, spec=s, points=p, before=a, after=b)
    if owner is not None and kind == "orientation":
        ctx.check(np.allclose(owner.getPos(), [s2 for s2 in (obj.pos_x_m, obj.pos_y_m, obj.elevation_m)]), "behaviour", "the camera does not follow its loaded orientation")
    ctx.seen("component", kind, s["proj"], s["orient"], s["lens"], owner is None)


class Unwritable:
    def __array__(self, *args, **kwargs):
        raise TypeError("cannot be converted")

    def __float__(self):
        return 3.0


def failing(ctx):
    """ a save that fails leaves the existing file as it was, or there is no file when there was none """
    s = gen.spec(ctx)
    cam = ctx.call("Camera", gen.make_camera, s)
    obj = ctx.pick([cam, cam, cam.projection, cam.orientation, cam.lens] if s["lens"] != "none" else [cam, cam, cam.projection, cam.orientation])
    path = ctx.tmp("keep.json")
    ctx.call("save", obj.save, path)
    content = open(path, "rb").read()
    names = [k for k in obj.parameters.parameters if k != "focallength_px"]
    name = ctx.pick(names)
    bad = ctx.pick([Unwritable(), np.array([1.0, 2.0]), object()])
    # put the value into the parameter without its callbacks
    try:
        obj.parameters.parameters[name].value = bad
    except AttributeError:
        from rtm.core import Skip
        raise Skip()
    try:
        obj.save(path)
        failed = False
    except Exception:
        failed = True
    now = open(path, "rb").read()
    if failed:
        ctx.check(now == content, "kept", "a failed save destroyed the existing file (%d of %d bytes left)" % (len(now), len(content)), parameter=name, value=repr(bad))
    ctx.count["failed" if failed else "not failed"] += 1
    ctx.seen("fail", type(obj).__name__, name, type(bad).__name__)


def failing_load(ctx):
    """ a file which is missing, cut off or no camera file raises an error and leaves the camera as it is """
    s = gen.spec(ctx)
    cam = ctx.call("Camera", gen.make_camera, s)
    obj = ctx.pick([cam, cam, cam.projection, cam.orientation])
    path = ctx.tmp("broken.json")
    kind = ctx.pick(["missing", "cut", "empty", "text"] + (["unknown", "list"] if obj is cam else []))
    if kind == "cut":
        obj.save(path)
        data = open(path).read()
        open(path, "w").write(data[:int(ctx.rng.integers(1, len(data.rstrip()) - 1))])
    elif kind == "empty":
        open(path, "w").close()
    elif kind == "text":
        open(path, "w").write("no camera")
    elif kind == "unknown":
        # a projection or lens of a kind which does not exist
        obj.save(path)
        data = json.load(open(path))
        data[ctx.pick(["projection", "lens"])] = int(ctx.pick([3, 9, -1]))
        json.dump(data, open(path, "w"))
    elif kind == "list":
        open(path, "w").write(json.dumps([1, 2, 3]))
    elif os.path.exists(path):
        os.remove(path)
    qs = questions(ctx, s)
    before, asked = values(cam), answers(ctx, cam, qs)
    try:
        obj.load(path)
        error = None
    except Exception as err:
        error = err
    ctx.check(error is not None, "load-fails", "loading a %s file raised no error" % kind, spec=s)
    ctx.check(values(cam) == before, "load-keeps", "a load that failed (%s file) changed the parameters" % kind, spec=s)
    compare(ctx, asked, answers(ctx, cam, qs), "after a failed load", spec=s)
    if kind == "missing":
        ctx.check(not os.path.exists(path), "load-keeps", "loading a missing file created it")
    ctx.seen("failing load", kind, type(obj).__name__)


def complete(ctx):
    """ the file holds a plain JSON object with the values of all parameters """
    s = gen.spec(ctx)
    cam = ctx.call("Camera", gen.make_camera, s)
    path = ctx.tmp(ctx.pick(["a.json", "dir name.json", "ü.cam"]))
    ctx.call("save", cam.save, path)
    data = json.load(open(path))
    for k, v in values(cam).items():
        ctx.check(k in data and same_number(data[k], v), "complete", "%s is %s in the file, it should be %s" % (k, data.get(k), v), spec=s)
    # the same settings without GPS, or in another order, are understood
    order = list(data)
    ctx.rng.shuffle(order)
    json.dump({k: data[k] for k in order}, open(path, "w"))
    new = ctx.call("load_camera", gen.ct().load_camera, path)
    for k, v in values(cam).items():
        ctx.check(same_number(getattr(new, k), v), "restored", "%s is %s after loading a file in another order, it should be %s" % (k, getattr(new, k), v), spec=s)
    ctx.seen("file", s["proj"], s["lens"], s["orient"])


def golden(ctx):
    """ files in the published format, as an earlier version has written them """
    s = gen.spec(ctx)
    model = ctx.call("Camera", gen.make_camera, s)
    data = {k: float(np.asarray(v)) for k, v in values(model).items()}
    for k in ("image_width_px", "image_height_px"):
        data[k] = int(data[k])
    data["projection"] = dict(rect=0, cyl=1, equi=2)[s["proj"]]
    data["lens"] = dict(none=0, abc=1, brown=2)[s["lens"]]
    left_out = ()
    if s["proj"] == "rect" and ctx.chance(0.3):
        del data["projection"]
        left_out += ("projection",)
    if s["lens"] == "none" and ctx.chance(0.3):
        del data["lens"]
        left_out += ("lens",)
    order = list(data)
    ctx.rng.shuffle(order)
    path = ctx.tmp("golden.json")
    with open(path, "w") as fp:
        json.dump({k: data[k] for k in order}, fp, indent=int(ctx.pick([0, 2, 4])))
    if ctx.chance(0.5):
        new = ctx.call("load_camera", gen.ct().load_camera, path)
    else:
        new = used_camera(ctx)
        ctx.call("load", new.load, path)
    qs = questions(ctx, s)
    compare(ctx, answers(ctx, model, qs), answers(ctx, new, qs), "a file in the published format", file=data, spec=s)
    # and the kinds are written with the same numbers
    ctx.call("save", model.save, path)
    written = json.load(open(path))
    for k in ("projection", "lens"):
        if k in data:
            ctx.check(written.get(k) == data[k], "format", "the kind of the %s is written as %s, other versions read %s" % (k, written.get(k), data[k]), spec=s)
    ctx.seen("golden", s["proj"], s["lens"], s["orient"], left_out)


SCENARIOS = dict(golden=(golden, 300, 4000), camera=(camera, 1200, 20000), component=(component, 800, 12000), failing=(failing, 500, 4000), complete=(complete, 300, 4000),
                 failing_load=(failing_load, 300, 3000))
