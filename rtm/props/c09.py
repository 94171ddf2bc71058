"""C09 geodesy"""
import numpy as np

from rtm import gen, ref

RULE = ("random and special positions (poles, equator, date line, antipodes, equal points, millimetres apart) alone, in batches and one against "
        "many; distinct = (function, regime of the distance, hemispheres, date line crossed, shape)")
ASSUMPTIONS = ["distances within 0.5 m of the antipodal distance and bearings of (nearly) equal or antipodal points are judged with the accuracy "
               "double precision allows", "targets and origins within some metres of a pole are judged with the accuracy of arcsin there"]
REQUIRE = {"judged:distance": 8000, "judged:bearing": 8000, "judged:move": 8000, "judged:space": 5000, "judged:camera": 3000, "judged:symmetric": 3000, "judged:setpos": 300, "judged:to-pole": 3000}
HALF = np.pi * ref.R_EARTH


def place(ctx, n):
    lat, lon = np.rad2deg(np.arcsin(ctx.rng.uniform(-1, 1, n))), ctx.rng.uniform(-180, 180, n)
    u = ctx.rng.random(n)
    lat = np.where(u < 0.06, ctx.rng.choice([0.0, 90, -90, 89.9999, -89.9999, 45, 1e-9], n), lat)
    v = ctx.rng.random(n)
    lon = np.where(v < 0.1, ctx.rng.choice([0.0, 180, -180, 179.99999, -179.99999, 90, -90, 360, 200, -270, 1e-9], n), lon)
    w = ctx.rng.random(n)
    return np.where(w < 0.1, np.round(lat), lat), np.where(w < 0.1, np.round(lon), lon)


def partner(ctx, lat, lon):
    """ points in all distances from the given ones """
    n = len(lat)
    d = np.exp(ctx.rng.uniform(np.log(1e-3), np.log(HALF * 0.999), n))
    b = ctx.rng.uniform(0, 360, n)
    u = ref.move(lat, lon, d, b)
    lat2 = np.rad2deg(np.arctan2(u[:, 2], np.hypot(u[:, 0], u[:, 1])))
    lon2 = np.rad2deg(np.arctan2(u[:, 1], u[:, 0]))
    k = ctx.rng.random(n)
    lat2, lon2 = np.where(k < 0.03, lat, lat2), np.where(k < 0.03, lon, lon2)
    lat2, lon2 = np.where((k > 0.03) & (k < 0.05), -lat, lat2), np.where((k > 0.03) & (k < 0.05), lon + 180, lon2)
    lon2 = np.where((k > 0.05) & (k < 0.09), lon, lon2)
    lat2 = np.where((k > 0.09) & (k < 0.13), lat, lat2)
    lon2 = np.where(k > 0.97, lon2 + 360, lon2)
    return lat2, lon2


def regime(d):
    return int(np.floor(np.log10(d + 1e-4)))


def shape_args(ctx, a, b):
    """ the two points as single, batch or one against many; returns args and rows """
    mode = ctx.pick(["batch", "batch", "single", "one-many", "many-one", "list"])
    if mode == "single":
        return mode, a[0], b[0], a[:1], b[:1]
    if mode == "one-many":
        return mode, a[0], b, np.repeat(a[:1], len(b), 0), b
    if mode == "many-one":
        return mode, a, b[0], a, np.repeat(b[:1], len(a), 0)
    if mode == "list":
        return mode, a.tolist(), [tuple(v) for v in b], a, b
    return mode, a, b, a, b


def distances(ctx):
    c = gen.ct()
    n = gen.batch_size(ctx, 300)
    lat1, lon1 = place(ctx, n)
    lat2, lon2 = partner(ctx, lat1, lon1)
    a, b = np.stack([lat1, lon1], -1), np.stack([lat2, lon2], -1)
    mode, x, y, ra, rb = shape_args(ctx, a, b)
    got = np.asarray(ctx.call("getDistance", c.getDistance, x, y), dtype=float)
    ctx.check(got.shape == (() if mode == "single" else (len(ra),)), "shape", "getDistance has the shape %s" % (got.shape,), mode=mode)
    got = np.atleast_1d(got)
    back = np.atleast_1d(np.asarray(ctx.call("getDistance", c.getDistance, y, x), dtype=float))
    bearing = np.asarray(ctx.call("getBearing", c.getBearing, x, y), dtype=float)
    ctx.check(bearing.shape == (() if mode == "single" else (len(ra),)), "shape", "getBearing has the shape %s" % (bearing.shape,), mode=mode)
    bearing = np.atleast_1d(bearing)
    want = ref.great_circle(ra[:, 0], ra[:, 1], rb[:, 0], rb[:, 1])
    wb = ref.bearing(ra[:, 0], ra[:, 1], rb[:, 0], rb[:, 1])
    for i in range(len(ra)):
        tol = 1e-7 + 1e-9 * want[i] + (1.0 if want[i] > HALF * 0.9999 else 0)
        ctx.check(abs(got[i] - want[i]) <= tol, "distance", "the distance of %s and %s is %s, it should be %s" % (ra[i], rb[i], got[i], want[i]), mode=mode)
        ctx.check(abs(got[i] - back[i]) <= tol, "symmetric", "the distance is %s, and %s in the other direction" % (got[i], back[i]), a=ra[i], b=rb[i])
        ctx.seen("distance", regime(want[i]), ra[i, 0] > 0, rb[i, 0] > 0, abs(ra[i, 1] - rb[i, 1]) > 180, mode)
        if (ra[i] == rb[i]).all():
            ctx.check(got[i] == 0, "zero", "the distance of a point to itself is %s" % got[i])
        s = np.sin(want[i] / ref.R_EARTH) * ref.R_EARTH
        t = 1e-9 + np.rad2deg(2e-8 / max(s, 1e-12))
        if t < 0.01:
            ctx.check(abs(ref.angle_diff(bearing[i], wb[i])) <= t, "bearing", "the bearing from %s to %s is %s, it should be %s" % (ra[i], rb[i], bearing[i], wb[i]), mode=mode)
            ctx.check(-180.0001 <= bearing[i] <= 360.0001, "bearing-range", "bearing %s" % bearing[i])
    # heights: Pythagoras
    if mode == "batch":
        h1, h2 = ctx.rng.uniform(0, 500, n), ctx.rng.uniform(0, 500, n)
        d3 = np.asarray(ctx.call("getDistance", c.getDistance, np.c_[a, h1], np.c_[b, h2]), dtype=float)
        bb = np.asarray(ctx.call("getBearing", c.getBearing, np.c_[a, h1], np.c_[b, h2]), dtype=float)
        w3 = np.sqrt(want ** 2 + (h1 - h2) ** 2)
        ok = np.abs(d3 - w3) <= 1e-7 + 1e-9 * w3 + np.where(want > HALF * 0.9999, 1.0, 0)
        ctx.check(ok.all(), "heights", "the distance with heights is not that of Pythagoras", a=a[~ok][:3], b=b[~ok][:3], got=d3[~ok][:3], want=w3[~ok][:3])
        ctx.check(np.array_equal(bb, bearing), "heights", "the bearing depends on the heights")
    ctx.sample(a=ra[0], b=rb[0], distance=got[0], bearing=bearing[0])


def moves(ctx):
    c = gen.ct()
    n = gen.batch_size(ctx, 300)
    lat, lon = place(ctx, n)
    d = np.exp(ctx.rng.uniform(np.log(1e-3), np.log(HALF * 1.5), n)) if ctx.chance(0.8) else ctx.rng.uniform(0, 1000, n)
    b = np.where(ctx.rng.random(n) < 0.2, ctx.rng.choice([0.0, 90, 180, 270, -90, 360, -180], n), ctx.rng.uniform(-400, 400, n))
    h = ctx.rng.uniform(0, 3000, n)
    three = ctx.chance(0.4)
    # exactly to one of the poles, or over it
    R0 = ref.R_EARTH + (h if three else 0)
    pole = ctx.rng.random(n) < 0.15
    north = ctx.rng.random(n) < 0.5
    d = np.where(pole, np.deg2rad(np.where(north, 90 - lat, lat + 90)) * R0 * (ctx.pick([1, 1, 1 + 1e-9, 1.5]) if ctx.chance(0.5) else 1), d)
    b = np.where(pole, np.where(north, 0.0, 180.0), b)
    start = np.stack([lat, lon, h], -1) if three else np.stack([lat, lon], -1)
    mode = ctx.pick(["batch", "batch", "single", "one-many", "scalar-distance", "scalar-bearing", "list"])
    sa, da, ba = start, d, b
    if mode == "single":
        sa, da, ba = start[0], float(d[0]), float(b[0])
        start, d, b, h = start[:1], d[:1], b[:1], h[:1]
    elif mode == "one-many":
        sa = start[0]
        start, h = np.repeat(start[:1], n, 0), np.repeat(h[:1], n)
    elif mode == "scalar-distance":
        da = float(d[0])
        d = np.repeat(d[:1], n)
    elif mode == "scalar-bearing":
        ba = float(b[0])
        b = np.repeat(b[:1], n)
    elif mode == "list":
        sa, da, ba = start.tolist(), d.tolist(), b.tolist()
    got = np.asarray(ctx.call("moveDistance", c.moveDistance, sa, da, ba), dtype=float)
    ctx.check(got.shape == (start.shape if mode != "single" else start.shape[1:]), "shape", "moveDistance has the shape %s for %s" % (got.shape, start.shape), mode=mode)
    got = np.atleast_2d(got)
    R = ref.R_EARTH + (h if three else 0) * np.ones(len(start))
    want = ref.move(start[:, 0], start[:, 1], d, b, R)
    err = np.linalg.norm(ref.unit(got[:, 0], got[:, 1]) - want, axis=-1) * ref.R_EARTH
    for i in range(len(start)):
        pole = np.hypot(want[i, 0], want[i, 1])
        tol = 1e-6 + 3e-9 / max(pole, 1e-8)
        ctx.check(err[i] <= tol, "move", "moving from %s by %s m in direction %s ends at %s, %.3g m beside the target" % (start[i], d[i], b[i], got[i], err[i]), mode=mode)
        ctx.check(-90 <= got[i, 0] <= 90, "latitude", "latitude %s" % got[i, 0])
        if three:
            ctx.check(abs(got[i, 2] - h[i]) < 1e-9, "height-kept", "moving changed the height from %s to %s" % (h[i], got[i, 2]))
        ctx.seen("move", regime(d[i]), int(b[i] % 360 // 45), start[i, 0] > 0, mode, three)


def to_pole(ctx):
    """ the positions at the poles """
    from cameratransform import gps
    c = gen.ct()
    n = gen.batch_size(ctx, 300)
    lat = np.rad2deg(np.arcsin(ctx.rng.uniform(-1, 1, n))) if ctx.chance(0.7) else ctx.rng.integers(-89, 90, n).astype(float)
    lon = ctx.rng.uniform(-180, 180, n)
    north = ctx.rng.random(n) < 0.5
    d = np.deg2rad(np.where(north, 90 - lat, lat + 90)) * ref.R_EARTH
    if ctx.chance(0.5):
        got = np.atleast_2d(np.asarray(ctx.call("moveDistance", c.moveDistance, np.stack([lat, lon], -1), d, np.where(north, 0.0, 180.0)), dtype=float))
    else:
        got = np.array([np.asarray(ctx.call("gpsFromSpace", gps.gpsFromSpace, np.array([0.0, np.where(q, v, -v)]), [a, o]), dtype=float)[:2] for q, v, a, o in zip(north, d, lat, lon)])
    want = np.where(north, 90.0, -90.0)
    for i in range(n):
        ctx.check(abs(got[i, 0] - want[i]) < 3e-6 and np.isfinite(got[i, 1]), "to-pole", "moving from %s, %s straight to the pole ends at %s" % (lat[i], lon[i], got[i]))
    ctx.seen("pole")


def spaces(ctx):
    """ the conversion between GPS and metric positions around an origin """
    from cameratransform import gps
    n = gen.batch_size(ctx, 200)
    lat0, lon0 = [float(v[0]) for v in place(ctx, 1)]
    if abs(lat0) > 89.9999:
        lat0 = 89.5
    scale = 10.0 ** ctx.rng.uniform(-2, 6.5)
    xy = ctx.rng.normal(size=(n, 2)) * scale
    xy[ctx.rng.random((n, 2)) < 0.1] = 0
    z = ctx.rng.uniform(-100, 1000, n)
    xyz = np.c_[xy, z]
    dist = np.hypot(*xy.T)
    keep = dist < HALF * 0.9
    xyz, xy, dist = xyz[keep], xy[keep], dist[keep]
    if len(xyz) == 0:
        return
    single = ctx.chance(0.2)
    arg = xyz[0] if single else xyz
    if single:
        xyz, xy, dist = xyz[:1], xy[:1], dist[:1]
    # also an origin which is given with its height (the position of a device): the height does not move points sideways
    h0 = float(ctx.pick([0.0, 30.0, 2000.0, 9000.0, -50.0]))
    origin = ctx.pick([np.array([lat0, lon0]), [lat0, lon0], np.array([lat0, lon0, h0]), [lat0, lon0, h0], (lat0, lon0, h0)])
    got = np.atleast_2d(np.asarray(ctx.call("gpsFromSpace", gps.gpsFromSpace, arg, origin), dtype=float))
    want = ref.move(np.full(len(xyz), lat0), np.full(len(xyz), lon0), dist, np.rad2deg(np.arctan2(xy[:, 0], xy[:, 1])))
    err = np.linalg.norm(ref.unit(got[:, 0], got[:, 1]) - want, axis=-1) * ref.R_EARTH
    pole = np.hypot(want[:, 0], want[:, 1])
    tol = 1e-6 + 3e-9 / np.maximum(pole, 1e-8)
    for i in range(len(xyz)):
        ctx.check(err[i] <= tol[i], "space.gps", "the GPS position of %s is %.3g m beside the right one" % (xyz[i], err[i]), origin=list(origin), got=got[i])
        ctx.check(got[i, 2] == xyz[i, 2], "space.height", "height %s became %s" % (xyz[i, 2], got[i, 2]))
        ctx.seen("space", regime(dist[i]), xy[i, 0] > 0, xy[i, 1] > 0, lat0 > 0, single, len(origin))
    # there and back
    back = np.atleast_2d(np.asarray(ctx.call("spaceFromGPS", gps.spaceFromGPS, got[0] if single else got, origin), dtype=float))
    for i in range(len(xyz)):
        t = (2 * tol[i] + 1e-9 * dist[i]) * max(1, dist[i] / max(1e-3, np.sin(dist[i] / ref.R_EARTH) * ref.R_EARTH)) + 1e-7
        ctx.check(np.abs(back[i] - xyz[i]).max() <= t, "space.roundtrip", "space -> gps -> space moved %s to %s" % (xyz[i], back[i]), origin=list(origin))
    # east and north have their meaning: also for 2 dimensional GPS positions
    two = np.atleast_2d(np.asarray(ctx.call("spaceFromGPS", gps.spaceFromGPS, got[0, :2] if single else got[:, :2], origin), dtype=float))
    ctx.check(two.shape == back.shape and np.array_equal(two[:, :2], back[:, :2]) and (two[:, 2] == 0).all(), "space.two", "GPS positions without height: %s" % two[:3], want=back[:3])
    step = 1e-3 if abs(lat0) < 85 else 1e-5
    north = np.asarray(gps.spaceFromGPS(np.array([[lat0 + np.sign(-lat0 or 1) * step, lon0, 5.0], [lat0, lon0 + step, 7.0], [lat0, lon0, 0]]), origin))
    m = np.deg2rad(step) * ref.R_EARTH
    ctx.check(abs(north[0, 1] - np.sign(-lat0 or 1) * m) < 1e-5 * m + 1e-6 and abs(north[0, 0]) < 1e-5 * m + 1e-6 and north[0, 2] == 5, "space.north", "north is %s" % north[0], origin=list(origin))
    me = m * np.cos(np.deg2rad(lat0))
    ctx.check(abs(north[1, 0] - me) < 1e-4 * me + 1e-6 and abs(north[1, 1]) < 1e-3 * me + 1e-6, "space.east", "east is %s" % north[1], origin=list(origin))
    ctx.check(np.abs(north[2]).max() < 1e-9, "space.origin", "the origin is at %s" % north[2])


def camera(ctx):
    s = gen.spec(ctx, moderate=True)
    s["lat"], s["lon"] = [float(v[0]) for v in place(ctx, 1)]
    s["lat"] = float(np.clip(s["lat"], -89.9, 89.9))
    if ctx.chance(0.3):
        s["elev"] = float(ctx.rng.uniform(100, 4000))
    cam = ctx.call("Camera", gen.make_camera, s)
    n = gen.batch_size(ctx, 60)
    # GPS positions of points in the scene
    xyz = np.c_[ctx.rng.normal(size=(n, 2)) * ctx.pick([10, 300, 3000]), ctx.rng.uniform(0, 20, n)]
    dist = np.hypot(*xyz.T[:2])
    got = np.asarray(ctx.call("gpsFromSpace", cam.gpsFromSpace, xyz), dtype=float)
    d = ref.great_circle(np.full(n, s["lat"]), np.full(n, s["lon"]), got[:, 0], got[:, 1])
    b = ref.bearing(np.full(n, s["lat"]), np.full(n, s["lon"]), got[:, 0], got[:, 1])
    for i in range(n):
        ctx.check(abs(dist[i] - d[i]) <= dist[i] * 1e-9 + 1e-6, "camera.distance", "a point %s m away is at a GPS distance of %s m" % (dist[i], d[i]), spec=s)
        ctx.check(abs(ref.angle_diff(b[i], np.rad2deg(np.arctan2(xyz[i, 0], xyz[i, 1])))) <= 1e-7 + np.rad2deg(1e-6 / max(dist[i], 1e-9)), "camera.direction",
                  "the GPS position of %s is in direction %s" % (xyz[i], b[i]), spec=s)
        ctx.check(abs(got[i, 2] - xyz[i, 2]) < 1e-12, "camera.height", "height %s became %s" % (xyz[i, 2], got[i, 2]))
        ctx.seen("camera", regime(dist[i]), s["lat"] > 0, s["proj"])
    back = np.asarray(ctx.call("spaceFromGPS", cam.spaceFromGPS, got), dtype=float)
    ctx.check(np.all(np.abs(back - xyz) <= dist[:, None] * 1e-8 + 1e-5), "camera.roundtrip", "space -> gps -> space moves points", spec=s, before=xyz[:4], after=back[:4])
    # gps -> image is the projection of the metric position
    im = np.asarray(ctx.call("imageFromGPS", cam.imageFromGPS, got), dtype=float)
    want = ref.image_from_space(s, back)
    z = ref.camera_from_space(s, back)
    tol = ref.image_tolerance(s, back, rel=1e-9)
    for i in range(n):
        if tol[i] < 0.5:
            if s["proj"] == "rect" and z[i, 2] > 1e-5:
                ctx.check(np.isnan(im[i]).all(), "camera.hidden", "a GPS position behind the camera is shown at %s" % im[i], spec=s)
            elif s["proj"] != "rect" or z[i, 2] < -1e-5:
                ctx.check((np.abs(ref.wrap_x(s, im[i] - want[i])) <= tol[i]).all(), "camera.image", "a GPS position is shown at %s and not at %s" % (im[i], want[i]), spec=s)
    # image -> gps -> image, with any constraint
    from rtm import queries
    p = queries.visible(ctx, s, int(ctx.rng.integers(1, 12)))
    single = ctx.chance(0.3)
    if single:
        p = p[:1]
    kind = ctx.pick(["default", "Z", "D", "Y", "X"])
    kw = {}
    if kind in "XY":
        kw[kind] = float(s["x" if kind == "X" else "y"] + ctx.rng.normal() * 40)
    elif kind == "Z":
        kw["Z"] = float(ctx.rng.uniform(-3, s["elev"] * 0.5)) if ctx.chance(0.5) else ctx.rng.uniform(-3, 1, len(p))
        if single:
            kw["Z"] = float(np.atleast_1d(kw["Z"])[0])
    elif kind == "D":
        kw["D"] = float(ctx.rng.uniform(1, 300))
    g = np.asarray(ctx.call("gpsFromImage", cam.gpsFromImage, p[0] if single else p, **kw), dtype=float)
    ctx.check(g.shape == ((3,) if single else (len(p), 3)), "shape", "gpsFromImage has the shape %s" % (g.shape,))
    g = g.reshape(-1, 3)
    space = np.asarray(cam.spaceFromImage(p, **({k: v for k, v in kw.items()})), dtype=float)
    want = np.asarray(cam.gpsFromSpace(space), dtype=float)
    ctx.check(np.allclose(g, want, rtol=1e-12, atol=1e-12, equal_nan=True), "camera.gpsFromImage", "gpsFromImage differs from the GPS position of spaceFromImage", spec=s, kw=kw, got=g, want=want)
    fine = np.isfinite(space).all(-1)
    if fine.any():
        dd = np.linalg.norm(space[fine] - ref.position(s), axis=-1)
        again = np.asarray(ctx.call("imageFromGPS", cam.imageFromGPS, g[fine]), dtype=float)
        t = ref.image_tolerance(s, space[fine], rel=1e-9)
        hor = np.hypot(*space[fine].T[:2])
        for a, e, tt, r, h in zip(p[fine], again, t, dd, hor):
            # GPS positions are good to some micrometres: seen from a distance of r
            t2 = tt + 3 * max(s["fx"], s["fy"]) * (h * 1e-9 + 1e-5) / r * (1 + 3 * (s["lens"] != "none"))
            if t2 < 2 and r < 1e5 and r > 0.1:
                ctx.check((np.abs(ref.wrap_x(s, a - e)) <= t2 + 1e-4).all(), "camera.image-roundtrip", "image -> gps -> image moved %s to %s" % (a, e), spec=s, kw=kw, tolerance=t2)


def setpos(ctx):
    """ all ways to place a camera on the globe agree """
    c = gen.ct()
    s = gen.spec(ctx, moderate=True)
    lat, lon = round(float(ctx.rng.uniform(-89, 89)), 4), round(float(ctx.rng.uniform(-179, 179)), 4)
    if ctx.chance(0.1):
        lat = ctx.pick([0.0, -0.5, 0.25])
    h = round(float(ctx.rng.uniform(1, 500)), 2)
    text = "%.4f° %.4f°" % (lat, lon)
    if ctx.chance(0.5):
        text = " ".join(c.formatGPS(lat, lon, format="%2d° %2d' %9.6f\" %s"))
    ways = dict(two=((lat, lon), {}), three=((lat, lon, h), {}), keyword=((), dict(lat=lat, lon=lon, elevation=h)), pair=(((lat, lon),), {}),
                triple=(((lat, lon, h),), {}), list=(([lat, lon, h],), {}), array=((np.array([lat, lon]),), {}), text=((text,), {}),
                text3=((text,), dict(elevation=h)), pair3=(((lat, lon),), dict(elevation=h)))
    way = ctx.pick(list(ways))
    cam = ctx.call("Camera", gen.make_camera, s)
    args, kw = ways[way]
    ctx.call("setGPSpos", cam.setGPSpos, *args, **kw)
    ctx.check(abs(cam.gps_lat - lat) < 1e-8 and abs(cam.gps_lon - lon) < 1e-8, "setpos", "setGPSpos%s put the camera at %s %s" % (args, cam.gps_lat, cam.gps_lon), way=way)
    want = h if way in ("three", "keyword", "triple", "list", "text3", "pair3") else s["elev"]
    ctx.check(abs(cam.elevation_m - want) < 1e-9, "setpos", "setGPSpos (%s) set the elevation to %s, it should be %s" % (way, cam.elevation_m, want))
    ctx.check(abs(float(np.asarray(cam.getPos(), dtype=float)[2]) - want) < 1e-9 and cam.pos_x_m == s["x"] and cam.pos_y_m == s["y"], "setpos", "setGPSpos moved the camera", way=way)
    g = np.asarray(cam.gpsFromSpace(np.array([0.0, 0.0, 0.0])), dtype=float)
    ctx.check(np.abs(g - [lat, lon, 0]).max() < 1e-8, "setpos", "the origin of space is at %s" % g, way=way)
    ctx.seen("setpos", way, lat > 0, lon > 0)


SCENARIOS = dict(distances=(distances, 1200, 25000), moves=(moves, 1000, 20000), spaces=(spaces, 800, 15000), camera=(camera, 900, 15000), setpos=(setpos, 500, 4000), to_pole=(to_pole, 400, 6000))
