"""C10 GPS strings"""
import re

import numpy as np

from rtm import gen

RULE = ("positions with both signs on, next to and between full degrees, minutes and seconds x printf formats, and positions written in every "
        "notation the parser knows; distinct = (format or notation, signs, kind of position, container)")
ASSUMPTIONS = ["hemisphere letters stand after the number, as in all documented notations", "latitude and longitude of one string use the same notation",
               "formats which end with an integer placeholder cut the rest off, as printf does"]
REQUIRE = {"judged:format": 10000, "judged:range": 10000, "judged:sign": 5000, "judged:parse": 10000, "judged:notation": 8000, "judged:carry": 300, "judged:list": 1500,
           "judged:reject": 50}


def angle(ctx, limit):
    """ (kind, value): an angle in degrees which is nasty to print """
    kind = ctx.pick(["any", "any", "any", "degree", "minute", "second", "near", "tiny", "ulp", "decimal", "mined"])
    sign = ctx.pick([1, -1])
    d, m, sec = int(ctx.rng.integers(0, limit)), int(ctx.rng.integers(0, 60)), int(ctx.rng.integers(0, 60))
    if kind == "degree":
        v = float(ctx.pick([d, d, 0, limit]))
    elif kind == "minute":
        v = d + m / 60
    elif kind == "second":
        v = d + m / 60 + sec / 3600
    elif kind == "near":
        # a little below or above a full degree, minute or second
        base = d + ctx.pick([0, m / 60, m / 60 + sec / 3600])
        v = abs(base + ctx.pick([-1, 1]) * 10.0 ** ctx.rng.uniform(-14, -2))
    elif kind == "tiny":
        v = float(10.0 ** ctx.rng.uniform(-9, 0))
    elif kind == "ulp":
        v = abs(float(np.nextafter(d + ctx.pick([0, m / 60, m / 60 + sec / 3600]), ctx.pick([-1, 1000]))))
    elif kind == "decimal":
        v = round(float(ctx.rng.uniform(0, limit)), int(ctx.rng.integers(1, 7)))
    elif kind == "mined":
        v = abs(gen.mined(ctx, 0, limit))
    else:
        v = float(ctx.rng.uniform(0, limit))
    return kind, sign * min(v, float(limit))


NUMBER = r"([-+]?\s*[\d.]+)"


def read(text, count, letters):
    """ the numbers and the letter in a formatted string, read without any knowledge of the parser """
    numbers = re.findall(r"[-+]?\d*\.?\d+", text)
    letter = [c for c in text if c in letters]
    return numbers, letter


def make_format(ctx):
    """ (format string, number of values, decimals of the last one, whether there is a letter) """
    count = int(ctx.rng.integers(1, 4))
    letter = ctx.chance(0.6)
    decimals = int(ctx.rng.integers(0, 9)) if ctx.chance(0.85) else None
    width = ctx.pick(["", "2", "3", "6", "9", "12"])
    first = ctx.pick(["%d", "%2d", "%2d", "%3d", "%02d", "%03d"])
    other = ctx.pick(["%d", "%2d", "%2d", "%02d"])
    if decimals is None:
        last = ctx.pick(["%d", "%2d", "%02d"])
    else:
        last = "%%%s.%df" % (width, decimals)
        if ctx.chance(0.05):
            last, decimals = "%f", 6
    if count == 1:
        fmt = last + "°"
    elif count == 2:
        fmt = first + "° " + last + ctx.pick(["'", "'", "", "’"])
    else:
        fmt = first + "° " + other + ctx.pick(["'", "'", "’", "′"]) + " " + last + ctx.pick(['"', '"', "''", "″"])
    if ctx.chance(0.15):
        fmt = None
        return fmt, 3, 3, True
    if ctx.chance(0.1):
        fmt = fmt.replace("° ", "°")
    return fmt + (ctx.pick([" ", " ", ""]) + "%s" if letter else ""), count, decimals, letter


def formats(ctx):
    c = gen.ct()
    fmt, count, decimals, letter = make_format(ctx)
    (k1, lat), (k2, lon) = angle(ctx, 90), angle(ctx, 180)
    a, b = lat, lon
    if ctx.chance(0.2):
        a, b = np.float64(lat), np.float64(lon)
    elif ctx.chance(0.1) and k1 == k2 == "degree":
        a, b = int(lat), int(lon)
    kw = {} if fmt is None else dict(format=fmt)
    if ctx.chance(0.1):
        kw["asLatex"] = True
    out = ctx.call("formatGPS", c.formatGPS, a, b, **kw)
    ctx.check(len(out) == 2 and all(isinstance(v, str) for v in out), "format", "formatGPS(%r, %r) is %r" % (lat, lon, out))
    unit = 1 / 60.0 ** (count - 1) * (10.0 ** -decimals if decimals is not None else 1)
    printed = []
    for text, value, letters in ((out[0], lat, "NS"), (out[1], lon, "EW")):
        numbers, found = read(text, count, letters)
        ctx.check(len(numbers) == count, "format", "%r printed as %r" % (value, text), format=fmt)
        v = [abs(float(n)) for n in numbers]
        total = sum(x / 60.0 ** i for i, x in enumerate(v))
        negative = value < 0
        if letter:
            ctx.check(found == [letters[int(negative)]] and not any(n.startswith("-") for n in numbers), "sign", "%r printed as %r" % (value, text), format=fmt)
        else:
            ctx.check(numbers[0].startswith("-") == negative and not found, "sign", "%r printed as %r" % (value, text), format=fmt)
        for x in v[1:]:
            ctx.check(0 <= x < 60, "range", "minutes or seconds out of range: %r printed as %r" % (value, text), format=fmt)
        diff = abs(value) - total
        eps = 1e-11 * (1 + abs(value))
        if decimals is None:
            ctx.check(-eps <= diff <= unit + eps, "format", "%r printed as %r" % (value, text), format=fmt, difference=diff, unit=unit)
        else:
            ctx.check(abs(diff) <= unit / 2 + eps, "format", "%r printed as %r" % (value, text), format=fmt, difference=diff, unit=unit)
        for n, (x, num) in enumerate(zip(v, numbers)):
            ctx.check(n == count - 1 or "." not in num, "format", "%r printed as %r" % (value, text), format=fmt)
        if count > 1 and v[-1] == 0 and diff < 0:
            ctx.count["judged:carry"] += 1
        printed.append(-total if negative else total)
        ctx.seen("format", fmt if fmt and len(fmt) < 12 else count, letter, decimals, negative, k1 if letters == "NS" else k2, v[-1] == 0)
    # the parser reads what was printed
    want = np.array(printed)
    sep = ctx.pick([" ", " ", ", ", "  ", ","])
    got = ctx.call("gpsFromString", c.gpsFromString, out[0] + sep + out[1])
    judge(ctx, got, want, "parse", out[0] + sep + out[1])
    both = ctx.call("gpsFromString", c.gpsFromString, ctx.pick([list, tuple])(out))
    judge(ctx, both, want, "parse", out)
    one = ctx.call("gpsFromString", c.gpsFromString, out[0])
    ctx.check(one is not None and abs(one - want[0]) <= 1e-11 * (1 + abs(want[0])), "parse", "%r was read as %r" % (out[0], one))
    h = float(np.round(ctx.rng.uniform(-10, 4000), 3))
    with_height = ctx.call("gpsFromString", c.gpsFromString, out[0] + sep + out[1], h)
    judge(ctx, with_height, np.append(want, h), "parse", (out[0] + sep + out[1], h))
    pair = ctx.call("gpsFromString", c.gpsFromString, list(out), h)
    judge(ctx, pair, np.append(want, h), "parse", (out, h))
    ctx.sample(position=[lat, lon], format=fmt, text=out)


def judge(ctx, got, want, mech, text):
    ctx.check(got is not None, mech, "%r was not understood" % (text,), want=want)
    got = np.asarray(got)
    ctx.check(got.dtype.kind == "f" and got.shape == want.shape and np.all(np.abs(got - want) <= 1e-11 * (1 + np.abs(want))), mech,
              "%r was read as %s and not as %s" % (text, got, want))


def write(ctx, limit, letters, style):
    """ a random angle and its text in a notation """
    notation, sign_style, minute, second, gap, pad = style
    d, m = int(ctx.rng.integers(0, limit)), int(ctx.rng.integers(0, 60))
    if ctx.chance(0.15):
        d = int(ctx.pick([0, 0, 1, 9, 10, limit - 1]))
    if ctx.chance(0.15):
        m = int(ctx.pick([0, 0, 59, 1, 9]))
    places = int(ctx.rng.integers(0, 9))
    frac = "%.*f" % (places, min(ctx.rng.uniform(0, 60), 60 - 10.0 ** -places) if ctx.chance(0.85) else ctx.pick([0, 1, 30, 59, 5]))
    if pad and float(frac) < 10:
        frac = "0" + frac
    negative = ctx.chance(0.5)
    dd = ("%03d" if limit > 90 else "%02d") % d if pad else "%d" % d
    mm = "%02d" % m if pad else "%d" % m
    if notation == "dms":
        value = d + m / 60 + float(frac) / 3600
        text = dd + "°" + gap + mm + minute + gap + frac + second
    elif notation == "dm":
        value = d + float(frac) / 60
        text = dd + "°" + gap + frac + minute
    else:
        deg = "%.*f" % (places, ctx.rng.uniform(0, limit))
        value = float(deg)
        text = deg + "°"
    if sign_style == "letter":
        text = text + ctx.pick([" ", "", gap]) + letters[int(negative)]
        if negative:
            value = -value
    elif sign_style == "sign":
        if negative:
            text, value = "-" + text, -value
        elif ctx.chance(0.2):
            text = "+" + text
    return value, text, negative and sign_style != "none"


def notations(ctx):
    c = gen.ct()
    notation = ctx.pick(["dms", "dm", "d"])
    minute = ctx.pick(["'", "′", "´", "’"] + ([""] if notation == "dm" else []))
    style = (notation, ctx.pick(["letter", "letter", "sign", "none"]), minute, ctx.pick(["''", '"', "´´", "″"]), ctx.pick([" ", " ", "", "  "]), ctx.chance(0.3))
    if notation == "dm" and minute == "" and style[1] != "letter":
        sep = ", "
    else:
        sep = ctx.pick([" ", " ", ", ", "  ", ","])
    if style[1] == "letter" and ctx.chance(0.1):
        sep = ""
    n = ctx.pick([1, 1, 2, 3, int(ctx.rng.integers(4, 20))])
    values, texts = [], []
    for _ in range(n):
        (a, ta, na), (b, tb, nb) = write(ctx, 90, "NS", style), write(ctx, 180, "EW", style)
        values.append([a, b])
        texts.append(ctx.pick(["", "", " "]) + ta + sep + tb + ctx.pick(["", "", " "]))
        ctx.seen(notation, style[1:5], na, nb, sep, n > 1)
        got = ctx.call("gpsFromString", c.gpsFromString, texts[-1])
        judge(ctx, got, np.array([a, b]), "notation", texts[-1])
        judge(ctx, ctx.call("gpsFromString", c.gpsFromString, [ta, tb]), np.array([a, b]), "notation", [ta, tb])
        one = ctx.call("gpsFromString", c.gpsFromString, tb)
        ctx.check(one is not None and abs(one - b) <= 1e-11 * (1 + abs(b)), "notation", "%r was read as %r" % (tb, one))
    values = np.array(values)
    heights = np.round(ctx.rng.uniform(0, 3000, n), 2)
    judge(ctx, ctx.call("gpsFromString", c.gpsFromString, ctx.pick([list, tuple])(texts)), values, "list", texts)
    pairs = [ctx.pick([list, tuple])([t, float(h)]) for t, h in zip(texts, heights)]
    judge(ctx, ctx.call("gpsFromString", c.gpsFromString, pairs), np.c_[values, heights], "list", pairs)
    whole = [[t, int(h)] for t, h in zip(texts, heights)]
    judge(ctx, ctx.call("gpsFromString", c.gpsFromString, whole), np.c_[values, heights.astype(int)], "list", whole)
    ctx.check(c.gpsFromString(12.5) == 12.5 and c.gpsFromString(7) == 7, "list", "numbers are not kept")
    # use: the positions are ready for the other functions
    if n > 1:
        d = np.asarray(ctx.call("getDistance", c.getDistance, c.gpsFromString(texts), values))
        ctx.check(np.all(np.abs(d) < 1e-3), "notation", "the parsed positions are %s m away" % d)
    ctx.sample(text=texts[0], value=values[0])


def rejects(ctx):
    c = gen.ct()
    bad = ctx.pick(["nothing", "", "%%", "%d %d %d %d %s", "%d° %d' %d\" %f", "%2d° %2d' %6.3f\" %f %s"])
    try:
        out = c.formatGPS(10.5, -3.25, format=bad)
    except ValueError:
        out = None
    ctx.check(out is None, "reject", "the format %r gave %r" % (bad, out))


SCENARIOS = dict(formats=(formats, 6000, 120000), notations=(notations, 2500, 50000), rejects=(rejects, 60, 120))
