"""
An independent reference model of what cameratransform documents: the three projections, the spatial orientation, the
lens models and the geodesy. It works on a plain description ("spec") of a camera and shares no code with the package.

spec = dict(proj="rect|cyl|equi", w, h, fx, fy, cx, cy,
            orient="thr|ypr", tilt, roll, heading | yaw, pitch, roll, elev, x, y,
            lens="none|brown|abc", k=(k1, k2, k3) | (a, b, c), lat, lon)
"""
import numpy as np

R_EARTH = 6371e3


# --- orientation ------------------------------------------------------------------------------------------------------
def angles(s):
    if s["orient"] == "ypr":
        return s["pitch"] + 90.0, -s["roll"], s["yaw"]
    return s["tilt"], s["roll"], s["heading"]


def rotation(s):
    tilt, roll, heading = [np.deg2rad(a) for a in angles(s)]
    # composed from elementary rotations of the axes, written as the images of the space axes
    def rot(axis, angle):
        c, sn = np.cos(angle), np.sin(angle)
        m = np.eye(3)
        i, j = [(1, 2), (2, 0), (0, 1)][axis]
        m[i, i] = m[j, j] = c
        m[i, j] = sn
        m[j, i] = -sn
        return m
    return rot(2, roll) @ rot(0, tilt) @ rot(2, -heading)


def position(s):
    return np.array([s["x"], s["y"], s["elev"]], dtype=float)


def camera_from_space(s, p):
    p = np.asarray(p, dtype=float)
    return np.einsum("ij,...j->...i", rotation(s), p - position(s))


def space_from_camera(s, p, direction=False):
    p = np.asarray(p, dtype=float)
    q = np.einsum("ji,...j->...i", rotation(s), p)
    return q if direction else q + position(s)


# --- projections ------------------------------------------------------------------------------------------------------
def project(s, q):
    """ ideal image position of points in camera coordinates (no hiding of back points) """
    q = np.asarray(q, dtype=float)
    x, y, z = q[..., 0], q[..., 1], q[..., 2]
    with np.errstate(all="ignore"):
        if s["proj"] == "rect":
            u = s["cx"] - s["fx"] * x / z
            v = s["cy"] + s["fy"] * y / z
        elif s["proj"] == "cyl":
            u = s["cx"] - s["fx"] * np.arctan2(-x, -z)
            v = s["cy"] - s["fy"] * y / np.hypot(x, z)
        else:
            u = s["cx"] - s["fx"] * np.arctan2(-x, -z)
            v = s["cy"] - s["fy"] * np.arctan2(y, np.hypot(x, z))
    return np.stack([u, v], axis=-1)


def ideal_ray(s, p):
    """ direction (not normed) in camera coordinates of ideal image points """
    p = np.asarray(p, dtype=float)
    a, b = (p[..., 0] - s["cx"]) / s["fx"], (p[..., 1] - s["cy"]) / s["fy"]
    if s["proj"] == "rect":
        return np.stack([a, -b, -np.ones_like(a)], axis=-1)
    if s["proj"] == "cyl":
        return np.stack([np.sin(a), -b, -np.cos(a)], axis=-1)
    return np.stack([np.sin(a) * np.cos(b), -np.sin(b), -np.cos(a) * np.cos(b)], axis=-1)


# --- lens -------------------------------------------------------------------------------------------------------------
def lens_poly(s):
    """ coefficients c[1..7] of r' = sum c_n r^n """
    c = np.zeros(8)
    if s["lens"] == "brown":
        c[1], c[3], c[5], c[7] = (1,) + tuple(s["k"])
    elif s["lens"] == "abc":
        a, b, cc = s["k"]
        c[1], c[2], c[3], c[4] = 1 - a - b - cc, cc, b, a
    else:
        c[1] = 1
    return c


def lens_scale(s):
    if s["lens"] == "abc":
        m = min(s["w"], s["h"]) / 2.0
        return np.array([m, m])
    return np.array([s["fx"], s["fy"]], dtype=float)


def radial(s, r):
    c = lens_poly(s)
    out = np.zeros_like(np.asarray(r, dtype=float))
    for n in range(7, -1, -1):
        out = out * r + c[n]
    return out


def radial_slope(s, r):
    c = lens_poly(s)
    out = np.zeros_like(np.asarray(r, dtype=float))
    for n in range(7, 0, -1):
        out = out * r + n * c[n]
    return out


def radial_limit(s, slope=0.1, cap=30.0):
    """ the largest radius up to which the radial function increases with at least the given slope """
    r = np.concatenate([np.linspace(0, 3, 1501), np.linspace(3, cap, 1500)[1:]])
    bad = radial_slope(s, r) < slope
    if bad[0]:
        return 0.0
    if not bad.any():
        return cap
    limit = r[np.argmax(bad) - 1]
    # far outside of any image stay clear of the turning point of the polynomial
    return limit if limit < 2 else max(2.0, 0.85 * limit)


def distort(s, p):
    p = np.asarray(p, dtype=float)
    if s["lens"] == "none":
        return p.copy()
    c, sc = np.array([s["cx"], s["cy"]], dtype=float), lens_scale(s)
    q = (p - c) / sc
    r = np.hypot(q[..., 0], q[..., 1])
    with np.errstate(all="ignore"):
        g = np.where(r > 0, radial(s, r) / np.where(r > 0, r, 1), 1.0)
    return q * g[..., None] * sc + c


def undistort(s, p, limit=None):
    """ bisection in the increasing part of the radial function; nan outside """
    p = np.asarray(p, dtype=float)
    if s["lens"] == "none":
        return p.copy()
    if limit is None:
        limit = radial_limit(s)
    c, sc = np.array([s["cx"], s["cy"]], dtype=float), lens_scale(s)
    q = (p - c) / sc
    rd = np.hypot(q[..., 0], q[..., 1])
    lo, hi = np.zeros_like(rd), np.full_like(rd, limit)
    for _ in range(70):
        mid = (lo + hi) / 2
        up = radial(s, mid) < rd
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    r = (lo + hi) / 2
    with np.errstate(all="ignore"):
        g = np.where(rd > 0, r / np.where(rd > 0, rd, 1), 1.0)
    g = np.where(rd <= radial(s, limit), g, np.nan)
    return q * g[..., None] * sc + c


# --- the whole camera -------------------------------------------------------------------------------------------------
def image_from_space(s, p):
    return distort(s, project(s, camera_from_space(s, p)))


def wrap_x(s, d):
    """ differences in x of panoramic images without lens are equal modulo the full turn """
    if s["proj"] != "rect" and s["lens"] == "none":
        turn = 2 * np.pi * abs(s["fx"])
        d = d.copy()
        d[..., 0] = d[..., 0] - turn * np.round(d[..., 0] / turn)
    return d


def image_tolerance(s, p, in_camera=False, rel=1e-12):
    """
    bound for the numerical error of the image position: the image positions of points which are displaced by many
    rounding errors; rows with a large bound are not judged
    """
    p = np.atleast_2d(np.asarray(p, dtype=float))
    f = (lambda q: distort(s, project(s, q))) if in_camera else (lambda q: image_from_space(s, q))
    base = f(p)
    mag = np.abs(p).max(axis=-1) + (0 if in_camera else np.abs(position(s)).max()) + 1e-6
    tol = np.zeros(len(p))
    for k in range(6):
        d = np.zeros(3)
        d[k % 3] = 1 if k < 3 else -1
        diff = wrap_x(s, f(p + np.maximum(rel * mag, 1e-10)[:, None] * d) - base)
        tol = np.maximum(tol, np.abs(diff).max(axis=-1))
    tol = 20 * tol + 1e-7 + 1e-10 * np.abs(base).max(axis=-1)
    return np.where(np.isfinite(tol), tol, np.inf)


def depth_margin(s, p):
    """ camera z of the points and a bound of its numerical error """
    p = np.atleast_2d(np.asarray(p, dtype=float))
    z = camera_from_space(s, p)[:, 2]
    return z, 1e-9 + 1e-12 * (np.abs(p).max(axis=-1) + np.abs(position(s)).max())


def well_conditioned(s, pts):
    """ the points whose image position is determined well by double precision numbers """
    q = camera_from_space(s, pts)
    mag = 1e-9 * (np.abs(pts).max(axis=-1) + np.abs(position(s)).max() + 1)
    ok = (np.abs(q[:, 2]) > mag) & (np.hypot(q[:, 0], q[:, 2]) > mag) & (image_tolerance(s, pts, rel=1e-11) < 0.05)
    if s["proj"] != "rect":
        # the seam of a panorama
        ok &= ~((np.abs(q[:, 0]) <= mag) & (q[:, 2] > 0))
    return pts[ok]


def ray(s, p):
    """ normed direction in space of image points """
    d = ideal_ray(s, undistort(s, p))
    d = d / np.linalg.norm(d, axis=-1)[..., None]
    return space_from_camera(s, d, direction=True)


def valid_image(s, p, margin=0.98):
    """ image points which have a unique ray """
    q = undistort(s, p)
    ok = np.all(np.isfinite(q), axis=-1)
    if s["proj"] != "rect":
        ok &= np.abs((q[..., 0] - s["cx"]) / s["fx"]) < np.pi * margin
    if s["proj"] == "equi":
        ok &= np.abs((q[..., 1] - s["cy"]) / s["fy"]) < np.pi / 2 * margin
    return ok


# --- geodesy ----------------------------------------------------------------------------------------------------------
def unit(lat, lon):
    lat, lon = np.deg2rad(lat), np.deg2rad(lon)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat) * np.ones_like(lon)], axis=-1)


def angle_between(a, b):
    """ well conditioned for all angles """
    cr = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.arctan2(cr, np.sum(a * b, axis=-1))


def great_circle(lat1, lon1, lat2, lon2):
    return R_EARTH * angle_between(unit(lat1, lon1), unit(lat2, lon2))


def frame(lat, lon):
    """ unit vectors to the north and to the east """
    la, lo = np.deg2rad(lat), np.deg2rad(lon)
    n = np.stack([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la) * np.ones_like(lo)], axis=-1)
    e = np.stack([-np.sin(lo), np.cos(lo), np.zeros_like(lo)], axis=-1)
    return n, e


def bearing(lat1, lon1, lat2, lon2):
    n, e = frame(lat1, lon1)
    b = unit(lat2, lon2)
    return np.rad2deg(np.arctan2(np.sum(b * e, -1), np.sum(b * n, -1)))


def move(lat, lon, distance, bearing_deg, radius=R_EARTH):
    """ unit vector of the target """
    n, e = frame(lat, lon)
    be = np.deg2rad(bearing_deg)
    d = np.asarray(distance) / radius
    t = n * np.cos(be)[..., None] + e * np.sin(be)[..., None]
    return unit(lat, lon) * np.cos(d)[..., None] + t * np.sin(d)[..., None]


def angle_diff(a, b):
    return (np.asarray(a) - np.asarray(b) + 180.0) % 360.0 - 180.0


def log_mass(pos, scale, limits):
    """ the logarithm of the part of a normal distribution of steps which is inside of the limits """
    from scipy.special import ndtr
    lo, hi = (limits[:, 0] - pos) / scale, (limits[:, 1] - pos) / scale
    return float(np.sum(np.log(ndtr(hi) - ndtr(lo))))
