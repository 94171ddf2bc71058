"""C13 camera groups and stereo"""
import numpy as np

from rtm import gen, ref

RULE = ("pairs and groups of cameras with own or shared components which look at common points, consistent and disturbed image points, and histories of "
        "changes through the group; distinct = (function, projections, lenses, which components are shared, single or batch, disturbed)")
ASSUMPTIONS = ["rays which meet at less than 0.5 degrees are not judged for the reconstructed point", "epipolar lines are straight, and their error is judged, only for rectilinear cameras without lens distortion",
               "setCameraParametersByPointCorrespondence is judged where OpenCV's pose is right"]
REQUIRE = {"judged:images": 1500, "judged:reconstruct": 2500, "judged:midpoint": 1200, "judged:ray-distance": 3000, "judged:epipolar": 1500, "judged:baseline": 600, "judged:scale": 600, "judged:shared": 600,
           "judged:count": 600, "judged:names": 600, "judged:pose": 60}


def stereo_specs(ctx, plain=False, scale=1.0):
    """ two cameras which look at the same region """
    target = ctx.rng.normal(size=3) * ctx.pick([1, 20]) * scale
    out = []
    for i in range(2):
        s = gen.spec(ctx, moderate=True, orient="thr" if ctx.chance(0.75) else "ypr", **(dict(proj="rect", lens="none") if plain else {}))
        r = float(ctx.rng.uniform(8, 60)) * scale
        d = ctx.rng.normal(size=3)
        if i and ctx.chance(0.6):
            # side by side
            d = base + ctx.rng.normal(size=3) * 0.2
        base = d = d / np.linalg.norm(d)
        pos = target + d * r
        s["x"], s["y"], s["elev"] = [float(v) for v in pos]
        look = -d
        # the optical axis is (sin(tilt) sin(heading), sin(tilt) cos(heading), -cos(tilt))
        tilt, heading = np.rad2deg(np.arccos(np.clip(-look[2], -1, 1))), np.rad2deg(np.arctan2(look[0], look[1]))
        tilt, heading = float(tilt + ctx.rng.normal()), float(heading + ctx.rng.normal())
        if s["orient"] == "ypr":
            s["pitch"], s["yaw"] = tilt - 90, heading
        else:
            s["tilt"], s["heading"] = tilt, heading
        out.append(s)
    return out, target


def common_points(ctx, specs, target, n, scale=1.0):
    p = target + ctx.rng.normal(size=(n * 3, 3)) * ctx.pick([0.3, 1, 2]) * scale
    ok = np.ones(len(p), dtype=bool)
    for s in specs:
        q = ref.camera_from_space(s, p)
        im = ref.image_from_space(s, p)
        ok &= (q[:, 2] < -0.5 * scale) & np.isfinite(im).all(-1)
        ok &= ref.valid_image(s, np.where(np.isfinite(im), im, 0)) & (ref.image_tolerance(s, p) < 1e-5 / min(scale, 1))
        if s["lens"] != "none":
            # the lens has to be invertible there
            back = ref.undistort(s, np.where(np.isfinite(im), im, 0))
            ok &= np.abs(back - ref.project(s, q)).max(-1) < 1e-3
    return p[ok][:n]


def make_group(specs):
    c = gen.ct()
    return c.CameraGroup([gen.make_projection(s) for s in specs], [gen.make_orientation(s) for s in specs], [gen.make_lens(s) for s in specs])


def two_rays(specs, a, b):
    """ closest points of the two lines of sight """
    d1, d2 = ref.ray(specs[0], a), ref.ray(specs[1], b)
    o1, o2 = ref.position(specs[0]), ref.position(specs[1])
    out, dist, angle = [], [], []
    for e, f in zip(d1, d2):
        m = np.array([e, -f]).T
        k = np.linalg.lstsq(m, o2 - o1, rcond=None)[0]
        q1, q2 = o1 + k[0] * e, o2 + k[1] * f
        out.append((q1 + q2) / 2)
        dist.append(np.linalg.norm(q1 - q2))
        angle.append(np.linalg.norm(np.cross(e, f)))
    return np.array(out), np.array(dist), np.array(angle)


def stereo(ctx):
    # from a microscope to a view of mountains
    scale = float(10.0 ** ctx.rng.uniform(-4.5, 2.5)) if ctx.chance(0.3) else 1.0
    specs, target = stereo_specs(ctx, scale=scale)
    x = common_points(ctx, specs, target, ctx.pick([1, 2, 3, 10, 30]) if ctx.chance(0.9) else gen.batch_size(ctx, 400), scale)
    if len(x) == 0:
        from rtm.core import Skip
        raise Skip()
    # the reconstruction is that of the first two cameras, whatever other cameras there are
    others = [gen.spec(ctx, moderate=True, orient="thr") for _ in range(int(ctx.rng.integers(1, 4)))] if ctx.chance(0.25) else []
    g = ctx.call("CameraGroup", make_group, specs + others)
    single = ctx.chance(0.25)
    if single:
        x = x[:1]
    arg = x[0] if single else (x.tolist() if ctx.chance(0.2) else x)
    ims = ctx.call("imagesFromSpace", g.imagesFromSpace, arg)
    ctx.check(len(ims) == 2 + len(others), "images", "a group of %d cameras gave %d images" % (2 + len(others), len(ims)))
    for cam, im in zip(list(g)[2:], ims[2:]):
        ctx.check(np.allclose(np.atleast_2d(np.asarray(im, dtype=float)), np.asarray(cam.imageFromSpace(x), dtype=float), rtol=1e-9, atol=1e-9, equal_nan=True), "images",
                  "the group gives other image positions than its camera", got=im)
    for cam, s, im in zip(g, specs, ims):
        im = np.asarray(im, dtype=float)
        ctx.check(im.shape == ((2,) if single else (len(x), 2)), "shape", "imagesFromSpace gave %s" % (im.shape,))
        alone = np.asarray(cam.imageFromSpace(x), dtype=float)
        want = ref.image_from_space(s, x)
        ctx.check(np.allclose(np.atleast_2d(im), alone, rtol=1e-9, atol=1e-9, equal_nan=True), "images", "the group gives other image positions than its camera", got=im, alone=alone)
        ctx.check(np.all(np.abs(ref.wrap_x(s, np.atleast_2d(im) - want)) <= ref.image_tolerance(s, x)[:, None]), "images", "image positions of the group are wrong", got=im, want=want, spec=s)
    a, b = np.atleast_2d(ims[0]).astype(float), np.atleast_2d(ims[1]).astype(float)
    got = np.asarray(ctx.call("spaceFromImages", g.spaceFromImages, ims[0], ims[1]), dtype=float)
    ctx.check(got.shape == ((3,) if single else (len(x), 3)), "shape", "spaceFromImages gave %s" % (got.shape,))
    got = np.atleast_2d(got)
    mid, dist, angle = two_rays(specs, a, b)
    rd = np.atleast_1d(np.asarray(ctx.call("discanteBetweenRays", g.discanteBetweenRays, ims[0], ims[1]), dtype=float))
    key = (specs[0]["proj"], specs[1]["proj"], specs[0]["lens"] != "none", specs[1]["lens"] != "none", single, len(others), int(np.log10(scale)))
    reach = np.linalg.norm(x - ref.position(specs[0]), axis=1) + np.linalg.norm(x - ref.position(specs[1]), axis=1)
    # what the inversion of a lens is good for
    err = 1e-8 + 1e-4 / min(specs[0]["fx"], specs[1]["fx"], specs[0]["fy"], specs[1]["fy"]) * (specs[0]["lens"] != "none" or specs[1]["lens"] != "none")
    for i in range(len(x)):
        if angle[i] > 0.01:
            ctx.check(np.linalg.norm(got[i] - x[i]) <= reach[i] * err / angle[i] ** 2 * 3 + 1e-7 * scale, "reconstruct", "the point %s is reconstructed as %s" % (x[i], got[i]), specs=specs, angle=angle[i])
            ctx.check(rd[i] <= reach[i] * err * 3 / angle[i] + 1e-7 * scale, "ray-distance", "the rays of the same point have a distance of %s" % rd[i], specs=specs)
            ctx.seen("reconstruct", *key)
    # disturbed image positions
    noise = ctx.pick([0.5, 3, 20])
    a2, b2 = a + ctx.rng.normal(size=a.shape) * noise, b + ctx.rng.normal(size=b.shape) * noise
    ok = ref.valid_image(specs[0], a2) & ref.valid_image(specs[1], b2)
    a2, b2, reach = a2[ok], b2[ok], reach[ok]
    if len(a2):
        mid, dist, angle = two_rays(specs, a2, b2)
        args = (a2[0], b2[0]) if single else (a2, b2)
        if not single and ctx.chance(0.2):
            args = (a2.tolist(), [tuple(v) for v in b2])
        got = np.atleast_2d(np.asarray(ctx.call("spaceFromImages", g.spaceFromImages, *args), dtype=float))
        rd = np.atleast_1d(np.asarray(ctx.call("discanteBetweenRays", g.discanteBetweenRays, *args), dtype=float))
        for i in range(len(got)):
            if angle[i] > 0.01:
                t = (reach[i] + np.linalg.norm(mid[i])) * err / angle[i] ** 2 * 3 + 1e-7 * scale
                ctx.check(np.linalg.norm(got[i] - mid[i]) <= t, "midpoint", "the middle of the shortest connection of the rays is %s and not %s" % (got[i], mid[i]), specs=specs, a=a2[i], b=b2[i])
                ctx.check(abs(rd[i] - dist[i]) <= t, "ray-distance", "the distance of the rays is %s and not %s" % (rd[i], dist[i]), specs=specs, a=a2[i], b=b2[i])
                ctx.seen("midpoint", *key)
    ctx.sample(points=len(x), first=x[0], reconstructed=got[0])


def side_by_side(ctx, specs):
    """ the second camera has the orientation of the first one and stands exactly beside it: the epipole is infinitely far away """
    a, b = specs
    if a["orient"] != b["orient"]:
        return specs
    level = ctx.chance(0.5)
    for k in ("heading", "tilt", "roll", "yaw", "pitch"):
        if k in a:
            a[k] = b[k] = 0.0 if level and k in ("roll",) else float(90 * np.round(a[k] / 90)) if level else a[k]
    shift = ref.rotation(a)[0] * float(ctx.rng.uniform(0.5, 4))
    if level:
        shift = np.round(shift * 8) / 8
    b["x"], b["y"], b["elev"] = [float(v) for v in ref.position(a) + shift]
    return [a, b]


def epipolar(ctx):
    specs, target = stereo_specs(ctx, plain=True)
    if ctx.chance(0.3):
        specs = side_by_side(ctx, specs)
        o, d = ref.position(specs[0]), ref.ray(specs[0], np.array([[specs[0]["w"] / 2, specs[0]["h"] / 2]]))[0]
        target = o + d * float(ctx.rng.uniform(8, 40))
    x = common_points(ctx, specs, target, ctx.pick([2, 3, 10, 30]))
    if len(x) < 2:
        from rtm.core import Skip
        raise Skip()
    g = ctx.call("CameraGroup", make_group, specs)
    a, b = [np.asarray(v, dtype=float) for v in g.imagesFromSpace(x)]
    noise = ctx.pick([0, 0, 1, 10])
    a2, b2 = a + ctx.rng.normal(size=a.shape) * noise, b + ctx.rng.normal(size=b.shape) * noise
    e = ctx.call("pointCorrespondenceError", g.pointCorrespondenceError, a2, b2)
    ctx.check(len(e) == 2 and all(np.shape(v) == (len(x),) for v in e), "shape", "pointCorrespondenceError gave %s" % (np.shape(e),))
    # the distance of the point to the epipolar line, from the fundamental matrix
    want = [epipolar_distance(specs[1], specs[0], b2, a2), epipolar_distance(specs[0], specs[1], a2, b2)]
    got = [e[1], e[0]]
    for i in range(2):
        for j in range(len(x)):
            # e[0] are the distances in the second image of the lines of the first camera
            w, cond = want[i][0][j], want[i][1][j]
            if not cond:
                continue
            scale = max(specs[0]["w"], specs[0]["h"], specs[1]["w"], specs[1]["h"])
            ctx.check(abs(got[i][j] - w) <= 1e-5 + 1e-6 * scale * 0.01 + 1e-6 * w, "epipolar", "the distance to the epipolar line is %s and not %s" % (got[i][j], w), specs=specs, a=a2[j], b=b2[j], noise=noise)
            ctx.seen("epipolar", noise, i, specs[0]["orient"])
    # as information for a fit
    u = ctx.pick([1, 2.5, 0.3])
    front = True
    for i, pts in ((0, a2), (1, b2)):
        d = ref.ideal_ray(specs[i], pts)
        for k in (1, 2):
            q = ref.camera_from_space(specs[1 - i], ref.space_from_camera(specs[i], d * k))
            front &= bool((q[:, 2] < -1e-3).all())
    g.addPointCorrespondenceInformation(a2, b2, uncertainty=u)
    lp = float(ctx.call("getLogProbability", g.getLogProbability))
    if front:
        expect = sum(np.sum(-0.5 * (np.asarray(v) / u) ** 2 - np.log(u * np.sqrt(2 * np.pi))) for v in e)
        ctx.check(abs(lp - expect) <= 1e-6 * (1 + abs(expect)), "epipolar-logprob", "the log probability of the correspondences is %s and not %s" % (lp, expect), specs=specs, uncertainty=u)
    else:
        ctx.check(not np.isnan(lp), "epipolar-logprob", "the log probability is nan")
    bl = float(np.linalg.norm(ref.position(specs[0]) - ref.position(specs[1])))
    t, su = float(ctx.rng.uniform(1, 50)), float(ctx.rng.uniform(0.5, 8))
    g.addBaselineInformation(t, su)
    lp2 = float(ctx.call("getLogProbability", g.getLogProbability))
    if np.isfinite(lp):
        expect = lp - 0.5 * ((bl - t) / su) ** 2 - np.log(su * np.sqrt(2 * np.pi))
        ctx.check(abs(lp2 - expect) <= 1e-6 * (1 + abs(expect)), "baseline-logprob", "the log probability with the baseline is %s and not %s" % (lp2, expect))


def epipolar_distance(s_from, s_to, p_from, p_to):
    """ the distance of image points to the images of lines of sight (as infinite lines), and whether it is well conditioned """
    d = ref.ray(s_from, p_from)
    o = ref.position(s_from)
    res, cond = [], []
    for e, p in zip(d, p_to):
        # the plane of the line of sight and the other camera
        n = np.cross(e, ref.position(s_to) - o)
        if np.linalg.norm(n) < 1e-3 * np.linalg.norm(ref.position(s_to) - o):
            res.append(0)
            cond.append(False)
            continue
        m = ref.rotation(s_to) @ (n / np.linalg.norm(n))
        # points (u, v) of the line: m . ((u - cx) / fx, -(v - cy) / fy, -1) = 0
        la, lb = m[0] / s_to["fx"], -m[1] / s_to["fy"]
        lc = -la * s_to["cx"] - lb * s_to["cy"] - m[2]
        k = np.hypot(la, lb)
        if k < 1e-9:
            res.append(0)
            cond.append(False)
            continue
        res.append(abs(la * p[0] + lb * p[1] + lc) / k)
        # the code takes two points of the line of sight next to its camera
        q = ref.camera_from_space(s_to, np.array([o + e * t for t in np.linalg.norm(ref.ideal_ray(s_from, p_from[:1])) * np.array([0.5, 1, 2, 3])]))
        im = ref.project(s_to, q)
        cond.append(bool(np.abs(q[:, 2]).min() > 1e-2 and np.ptp(im, axis=0).max() > 1e-2 and np.abs(im).max() < 1e6))
    return np.array(res), np.array(cond)


def groups(ctx):
    """ groups of any size with own and shared components; changes through the group """
    c = gen.ct()
    n = int(ctx.rng.integers(1, 6)) if ctx.chance(0.85) else int(ctx.rng.integers(6, 24))
    specs = [gen.spec(ctx, moderate=True, orient="thr") for _ in range(n)]
    if n > 1 and ctx.chance(0.25):
        # two cameras at the same place
        a, b = ctx.rng.permutation(n)[:2]
        for k in ("x", "y", "elev"):
            specs[b][k] = specs[a][k]
    # how many different objects there are of each component; shorter lists are repeated
    share = {k: ctx.chance(0.4) for k in ("projection", "orientation", "lens")}
    number = {k: 1 if share[k] else n for k in share}
    if n > 2:
        for k in share:
            if not share[k] and ctx.chance(0.3):
                number[k] = int(ctx.rng.integers(2, n))
    share = {k: number[k] == 1 for k in share}
    parts = {}
    for name, make in (("projection", gen.make_projection), ("orientation", gen.make_orientation), ("lens", gen.make_lens)):
        if share[name]:
            one = make(specs[0])
            parts[name] = one if ctx.chance(0.6) else [one]
        else:
            parts[name] = [make(s) for s in specs[:number[name]]]
            if ctx.chance(0.2):
                parts[name] = tuple(parts[name])
    keys = dict(projection=("proj", "w", "h", "fx", "fy", "cx", "cy"), orientation=("orient", "tilt", "heading", "roll", "elev", "x", "y"), lens=("lens", "k"))
    for name in share:
        for i in range(number[name], n):
            for k in keys[name]:
                specs[i].pop(k, None)
                if k in specs[i % number[name]]:
                    specs[i][k] = specs[i % number[name]][k]
    n = max(number.values())
    specs = specs[:n]
    g = ctx.call("CameraGroup", c.CameraGroup, parts["projection"], parts["orientation"], parts["lens"])
    ctx.check(len(g) == n and len(list(g)) == n, "count", "a group of %d cameras has %d" % (n, len(g)), share=share)
    for name in ("projection", "orientation"):
        objs = {id(getattr(cam, name)) for cam in g}
        ctx.check(len(objs) == number[name], "shared", "%d different objects as %s of %d cameras" % (len(objs), name, n), number=number)

    def compare(mech):
        for i, s in enumerate(specs):
            if mech == "names":
                x = ref.position(s) + ctx.rng.normal(size=(8, 3)) * 10
            else:
                x = ctx.rng.normal(size=(8, 3)) * 20
            x = ref.well_conditioned(s, x)
            if len(x) == 0:
                continue
            got = np.asarray(ctx.call("imageFromSpace", g[i].imageFromSpace, x, hide_backpoints=False), dtype=float)
            want = ref.image_from_space(s, x)
            t = ref.image_tolerance(s, x, rel=1e-11)
            bad = ~(np.abs(ref.wrap_x(s, got - want)) <= t[:, None]).all(-1) & np.isfinite(want).all(-1)
            ctx.check(not bad.any(), mech, "camera %d of the group shows points at a wrong position" % i, spec=s, share=share, got=got[bad][:3], want=want[bad][:3], log=ctx.log)
    compare("shared")
    for step in range(3):
        # change a parameter through the group, a camera or a component
        i = int(ctx.rng.integers(n))
        options = [("orientation", k) for k in ("elev", "x", "y", "tilt", "roll", "heading")] + [("projection", k) for k in ("fx", "fy", "cx", "cy")]
        if specs[i]["lens"] != "none":
            options += [("lens", 0), ("lens", 1), ("lens", 2)]
        part, key = options[int(ctx.rng.integers(len(options)))]
        v = float(ctx.rng.uniform(0, 0.08)) if part == "lens" else float(specs[i][key] * ctx.rng.uniform(0.8, 1.3) + (0.5 if part == "orientation" else 0))
        name = gen.NAMES[key] if part != "lens" else (("k1", "k2", "k3") if specs[i]["lens"] == "brown" else ("a", "b", "c"))[key]
        how = ctx.pick(["group", "camera", "part"])
        own = i % number[part]
        if how == "group":
            setattr(g, ("C%d_%s" % (own, name)) if number[part] > 1 else name, v)
            back = getattr(g, ("C%d_%s" % (own, name)) if number[part] > 1 else name)
        elif how == "camera":
            setattr(g[i], name, v)
            back = getattr(g[i], name)
        else:
            setattr(getattr(g[i], part), name, v)
            back = getattr(getattr(g[i], part), name)
        ctx.note(how=how, camera=i, name=name, value=v)
        ctx.check(back == v or ("deg" in name and abs(ref.angle_diff(back, v)) < 1e-9), "names", "%s was set to %s and is %s" % (name, v, back), how=how)
        for j in range(own, n, number[part]):
            if part == "lens":
                specs[j]["k"] = tuple(v if m == key else old for m, old in enumerate(specs[j]["k"]))
            else:
                specs[j][key] = v
        compare("names")
        ctx.seen("change", how, part, *[min(number[k], 2) + (2 < number[k] < n) for k in share], min(n, 3), n > 9)
    # scaling of the space
    f = float(ctx.pick([2, 0.5, ctx.rng.uniform(0.1, 10)]))
    if n >= 2:
        want = float(np.linalg.norm(ref.position(specs[0]) - ref.position(specs[1])))
        got = float(ctx.call("getBaseline", g.getBaseline))
        ctx.check(abs(got - want) <= 1e-9 * (1 + want), "baseline", "the baseline is %s and not %s" % (got, want), specs=specs[:2])
    x = ctx.rng.normal(size=(6, 3)) * 20
    before = [np.asarray(v, dtype=float) for v in g.imagesFromSpace(x)]
    others = [(cam.tilt_deg, cam.heading_deg, cam.roll_deg, cam.focallength_x_px, cam.center_x_px) for cam in g]
    ctx.call("scaleSpace", g.scaleSpace, f)
    for s, cam, o in zip(specs, g, others):
        want = ref.position(s) * f
        ctx.check(np.abs(np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m], dtype=float) - want).max() <= 1e-9 * (1 + np.abs(want).max()), "scale",
                  "scaled by %s the camera is at %s and not at %s" % (f, [cam.pos_x_m, cam.pos_y_m, cam.elevation_m], want), share=share)
        ctx.check(o == (cam.tilt_deg, cam.heading_deg, cam.roll_deg, cam.focallength_x_px, cam.center_x_px), "scale", "scaling the space turned a camera or changed its projection")
    after = [np.asarray(v, dtype=float) for v in g.imagesFromSpace(x * f)]
    for p, q, s in zip(before, after, specs):
        t = ref.image_tolerance(s, x, rel=1e-10)
        ok = np.isfinite(t) & (t < 1) & np.isfinite(p).all(-1)
        z = ref.camera_from_space(s, x)
        ok &= np.abs(z[:, 2]) > 1e-6
        ctx.check(np.all(np.abs(ref.wrap_x(s, (p - q)[ok])) <= t[ok][:, None]) and np.array_equal(np.isnan(p[np.abs(z[:, 2]) > 1e-6]), np.isnan(q[np.abs(z[:, 2]) > 1e-6])), "scale", "the scaled cameras see the scaled points elsewhere", share=share, spec=s)
    if n >= 2:
        want = float(np.linalg.norm(ref.position(specs[0]) - ref.position(specs[1]))) * f
        got = float(g.getBaseline())
        ctx.check(abs(got - want) <= 1e-9 * (1 + want), "baseline", "the scaled baseline is %s and not %s" % (got, want))


def pose(ctx):
    """ the second camera from point correspondences """
    import cv2
    c = gen.ct()
    w, h = 1000, 800
    f = float(ctx.rng.uniform(600, 1200))
    mk = lambda: c.RectilinearProjection(focallength_px=f, image=(w, h))
    p1 = ctx.rng.normal(size=3) * ctx.pick([0, 5])
    s1 = dict(proj="rect", w=w, h=h, fx=f, fy=f, cx=w / 2, cy=h / 2, lens="none", orient="thr", tilt=0.0, heading=0.0, roll=0.0, x=float(p1[0]), y=float(p1[1]), elev=float(p1[2]))
    s2 = dict(s1)
    d = ctx.rng.normal(size=3) * [1, 1, 0.3]
    d = d / np.linalg.norm(d) * ctx.rng.uniform(0.7, 2)
    s2["x"], s2["y"], s2["elev"] = [float(v) for v in p1 + d]
    if ctx.chance(0.85):
        s2["tilt"], s2["heading"], s2["roll"] = float(abs(ctx.rng.normal() * 5)), float(ctx.rng.normal() * 15), float(ctx.rng.normal() * 15)
    elif ctx.chance(0.5):
        s2["heading"] = float(ctx.rng.normal() * 15)
    x = np.c_[ctx.rng.uniform(-4, 4, (80, 2)), ctx.rng.uniform(-14, -7, 80)] + p1
    a, b = ref.image_from_space(s1, x), ref.image_from_space(s2, x)
    g = c.CameraGroup([mk(), mk()], [c.SpatialOrientation(elevation_m=s1["elev"], pos_x_m=s1["x"], pos_y_m=s1["y"], tilt_deg=ctx.pick([0, 30])), c.SpatialOrientation()])
    # is OpenCV able to find the pose?
    K = np.array([[f, 0, w / 2], [0, f, h / 2], [0, 0, 1]])
    cv2.setRNGSeed(1)
    mat, mask = cv2.findEssentialMat(a, b, f, (w / 2, h / 2))
    if mat is None or mat.shape != (3, 3):
        return
    _, rot, t, _ = cv2.recoverPose(mat, a, b, K)
    flip = np.diag([1.0, -1, -1])
    true = flip @ ref.rotation(s2) @ flip
    if np.abs(rot - true).max() > 1e-4 or np.abs(t[:, 0] - true @ (-flip @ d / np.linalg.norm(d))).max() > 1e-3:
        ctx.count["opencv-failed"] += 1
        return
    cv2.setRNGSeed(1)
    base = float(np.linalg.norm(d))
    ctx.call("setCameraParametersByPointCorrespondence", g.setCameraParametersByPointCorrespondence, a, b, base)
    ctx.check(abs(g.getBaseline() - base) < 1e-6, "pose", "the baseline is %s and not %s" % (g.getBaseline(), base))
    got = [np.asarray(v, dtype=float) for v in g.imagesFromSpace(x)]
    ctx.check(max(np.abs(got[0] - a).max(), np.abs(got[1] - b).max()) < 5, "pose", "the cameras found from correspondences see the points up to %s pixels elsewhere" % max(
        np.abs(got[0] - a).max(), np.abs(got[1] - b).max()), specs=[s1, s2], second=str(g[1]))
    ctx.seen("pose", s2["tilt"] == 0, s2["heading"] == 0, bool(p1.any()))


SCENARIOS = dict(stereo=(stereo, 900, 20000), epipolar=(epipolar, 450, 8000), groups=(groups, 700, 10000), pose=(pose, 160, 2000))
