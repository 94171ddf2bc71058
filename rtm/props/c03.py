"""C03 rigid orientation"""
import numpy as np

from rtm import gen, ref

RULE = ("random orientations of both conventions, points and directions of all magnitudes; distinct = (convention, "
        "quadrants of the three angles, kind of judgement)")
REQUIRE = {"judged:matrix": 3000, "judged:inverse": 3000, "judged:isometry": 3000, "judged:meaning": 1500, "judged:rotateSpace": 800}


def quadrants(s):
    return tuple(int(a // 90) for a in ref.angles(s))


def transforms(ctx):
    specs = [gen.spec(ctx, lens="none") for _ in range(2)]
    for s in specs:
        for name in ("tilt", "heading", "roll", "yaw", "pitch"):
            if name in s and ctx.chance(0.1):
                # beyond a full turn
                s[name] = s[name] + 360 * int(ctx.pick([-3, -2, -1, 1, 2, 3]))
    objs = [ctx.call("orientation", gen.make_orientation, s) for s in specs]
    for _ in range(4):
        k = int(ctx.rng.integers(2))
        s, o = specs[k], objs[k]
        if ctx.chance(0.3):
            # a later change of one of the angles
            name = ctx.pick([n for n in ("tilt", "heading", "roll", "yaw", "pitch") if n in s])
            s[name] = gen.number(ctx, -1000, 1000, gen.ANGLES)
            ctx.call("set " + name, setattr, o, gen.NAMES[name], s[name])
        n = gen.batch_size(ctx, 500)
        mag = 10.0 ** ctx.rng.integers(-3, 6)
        p = ctx.rng.normal(size=(n, 3)) * mag
        if ctx.chance(0.3):
            p += ref.position(s)
        elif ctx.chance(0.15):
            # all the same
            p = np.tile(ctx.pick([np.zeros(3), ref.position(s), p[0]]), (n, 1))
        dressed, plain, form = gen.dress(ctx, p)
        single = ctx.chance(0.2)
        if single:
            dressed, plain = dressed[0], plain[0]
        tol = 1e-11 * (np.abs(plain).max() + np.abs(ref.position(s)).max()) + 1e-12
        c = np.asarray(ctx.call("cameraFromSpace", o.cameraFromSpace, dressed))
        ctx.check(c.shape == plain.shape, "shape", "shape %s for %s" % (c.shape, plain.shape))
        ctx.check(np.abs(c - ref.camera_from_space(s, plain)).max() <= tol, "matrix", "camera coordinates differ from the documented rotation",
                  spec=s, points=plain[:5], got=c[:5], want=ref.camera_from_space(s, plain)[:5])
        w = np.asarray(ctx.call("spaceFromCamera", o.spaceFromCamera, dressed))
        ctx.check(w.shape == plain.shape, "shape", "shape %s for %s" % (w.shape, plain.shape))
        ctx.check(np.abs(w - ref.space_from_camera(s, plain)).max() <= tol, "matrix", "space coordinates differ from the documented rotation",
                  spec=s, points=plain[:5], got=w[:5])
        v = np.asarray(ctx.call("spaceFromCamera", o.spaceFromCamera, dressed, direction=True))
        ctx.check(v.shape == plain.shape, "shape", "shape %s for %s" % (v.shape, plain.shape))
        ctx.check(np.abs(v - ref.space_from_camera(s, plain, True)).max() <= tol, "matrix", "directions differ from the documented rotation",
                  spec=s, points=plain[:5], got=v[:5])
        back = np.asarray(ctx.call("spaceFromCamera", o.spaceFromCamera, c))
        ctx.check(np.abs(back - plain).max() <= 10 * tol, "inverse", "space -> camera -> space moved a point", spec=s, points=plain[:5], got=back[:5])
        back = np.asarray(ctx.call("cameraFromSpace", o.cameraFromSpace, w))
        ctx.check(np.abs(back - plain).max() <= 10 * tol, "inverse", "camera -> space -> camera moved a point", spec=s, points=plain[:5], got=back[:5])
        # lengths, angles and handedness are kept
        if not single and n >= 4 and np.linalg.norm(plain[1:4] - plain[0], axis=1).min() > 0:
            a, b = c[1:4] - c[0], plain[1:4] - plain[0]
            ctx.check(np.abs(a @ a.T - b @ b.T).max() <= 1e-9 * (np.abs(b).max() ** 2 + 1e-3 * np.abs(b).max() * tol / 1e-12 * 1e-6) + tol * np.abs(b).max() * 10,
                      "isometry", "lengths or angles are not kept", spec=s, points=plain[:4], got=c[:4])
            na, nb = a / np.linalg.norm(b, axis=1)[:, None], b / np.linalg.norm(b, axis=1)[:, None]
            rel = tol / np.linalg.norm(b, axis=1).min()
            if rel < 1e-6:
                ctx.check(abs(np.linalg.det(na) - np.linalg.det(nb)) < 1e-5, "handedness", "the transformation mirrors", spec=s, points=plain[:4])
        else:
            ctx.check(abs(np.linalg.norm(v) - np.linalg.norm(plain)) <= tol * 10 * max(1, np.sqrt(n)), "isometry", "a direction changed its length", spec=s, point=plain)
        ctx.seen(s["orient"], quadrants(s), form, single)
    ctx.sample(spec=s, point=np.atleast_2d(plain)[0], camera=np.atleast_2d(c)[0])


def meaning(ctx):
    """ what the angles mean to a user, without any matrix """
    s = gen.spec(ctx, lens="none", orient="thr", moderate=ctx.chance(0.5))
    o = ctx.call("orientation", gen.make_orientation, s)
    pos = np.asarray(o.spaceFromCamera([0, 0, 0]), dtype=float)
    ctx.check(np.abs(pos - ref.position(s)).max() <= 1e-9 * (1 + np.abs(ref.position(s)).max()), "meaning.position", "the camera is at %s" % pos, spec=s)
    view = np.asarray(o.spaceFromCamera([0, 0, -1.0], direction=True), dtype=float)
    t, h = np.deg2rad(s["tilt"]), np.deg2rad(s["heading"])
    # tilt 0 looks straight down, 90 to the horizon; heading is clockwise from the y axis (north)
    want = np.array([np.sin(t) * np.sin(h), np.sin(t) * np.cos(h), -np.cos(t)])
    ctx.check(np.abs(view - want).max() < 1e-9, "meaning.view", "tilt %s heading %s looks along %s instead of %s" % (s["tilt"], s["heading"], view, want), spec=s)
    right = np.asarray(o.spaceFromCamera([1.0, 0, 0], direction=True), dtype=float)
    up = np.asarray(o.spaceFromCamera([0, 1.0, 0], direction=True), dtype=float)
    # roll turns the image around the line of sight; without roll the right side of the image is horizontal
    r = np.deg2rad(s["roll"])
    right0 = np.array([np.cos(h), -np.sin(h), 0])
    up0 = np.cross(right0, -want) * -1
    up0 = np.cross(-want, right0)
    ctx.check(np.abs(right - (right0 * np.cos(r) + up0 * np.sin(r))).max() < 1e-9, "meaning.roll", "roll %s: the right of the image is %s" % (s["roll"], right), spec=s)
    ctx.check(np.abs(np.cross(right, up) + view).max() < 1e-9, "meaning.handed", "the camera axes are not right handed", spec=s)
    # the other convention: pitch 0 looks to the horizon, yaw is the heading, roll has the opposite sign
    y = dict(s, orient="ypr", yaw=s["heading"], pitch=s["tilt"] - 90, roll=-s["roll"])
    p = ctx.rng.normal(size=(5, 3)) * 30
    a = np.asarray(o.cameraFromSpace(p))
    b = np.asarray(ctx.call("yaw pitch roll", gen.make_orientation, y).cameraFromSpace(p))
    ctx.check(np.abs(a - b).max() <= 1e-10 * (100 + np.abs(ref.position(s)).max()), "meaning.ypr", "tilt/heading/roll and yaw/pitch/roll disagree", spec=s, ypr=y)
    ctx.seen("meaning", quadrants(s))


def rotate_space(ctx):
    """ rotateSpace turns camera and world together: the image of the turned world is the old image """
    s = gen.spec(ctx, moderate=ctx.chance(0.6))
    if abs(s["x"]) + abs(s["y"]) > 1e4:
        s["x"] = s["y"] = 25.0
    cam = ctx.call("Camera", gen.make_camera, s)
    pts = gen.space_points(ctx, s, 10, ref)
    before = np.asarray(ctx.call("imageFromSpace", cam.imageFromSpace, pts))
    total = 0.0
    for _ in range(int(ctx.rng.integers(1, 4))):
        delta = gen.number(ctx, -720, 720, gen.ANGLES)
        ctx.call("rotateSpace", cam.rotateSpace, delta)
        total += delta
        a = np.deg2rad(total)
        # clockwise
        turned = np.stack([pts[:, 0] * np.cos(a) + pts[:, 1] * np.sin(a), -pts[:, 0] * np.sin(a) + pts[:, 1] * np.cos(a), pts[:, 2]], axis=-1)
        after = np.asarray(ctx.call("imageFromSpace", cam.imageFromSpace, turned))
        tol = 20 * ref.image_tolerance(s, pts, rel=1e-11)
        q = ref.camera_from_space(s, pts)
        for i in range(len(pts)):
            if tol[i] < 0.05 and abs(q[i, 2]) > 1e-5 and np.hypot(q[i, 0], q[i, 2]) > 1e-5:
                same = np.isnan(before[i]).all() and np.isnan(after[i]).all()
                ctx.check(same or (np.abs(ref.wrap_x(s, before[i] - after[i])) <= tol[i]).all(), "rotateSpace",
                          "after turning the space by %s a point moves in the image from %s to %s" % (total, before[i], after[i]), spec=s, point=pts[i])
        ctx.check(abs(cam.elevation_m - s["elev"]) < 1e-12 and cam.roll_deg == s["roll"] and (cam.tilt_deg == s["tilt"] if s["orient"] == "thr" else cam.pitch_deg == s["pitch"] or abs(s["pitch"]) > 360), "rotateSpace-keeps",
                  "rotateSpace changed elevation, tilt or roll", spec=s)
    ctx.seen("rotate", quadrants(s), int(total // 90))


SCENARIOS = dict(transforms=(transforms, 1500, 40000), meaning=(meaning, 800, 20000), rotate_space=(rotate_space, 800, 20000))
