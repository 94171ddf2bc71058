"""C18 EXIF and the sensor database"""
import contextlib
import io
import os
import resource
import signal

import numpy as np

from rtm import gen

RULE = ("generated image files with EXIF information, generated databases and a stand-in for the network (at the transport of the requests library) which answers, fails, or is cut off, in histories of calls in one directory; "
        "disk-full faults by a limit of the file size in a forked process; distinct = (source of the sensor size, number format, state of the database, fault)")
ASSUMPTIONS = ["the network is a stand-in, nothing outside of a scratch directory is written", "models are compared with the database exactly, as maker and model",
               "a broken line of the database may be an error or a fall back, but never another sensor size"]
REQUIRE = {"judged:focal": 300, "judged:image": 300, "judged:sensor-database": 80, "judged:sensor-exif": 80, "judged:database-kept": 200, "judged:fault": 80, "judged:no-broken-database": 40, "judged:recover": 40,
           "judged:no-network": 100, "judged:verbose": 50, "judged:model": 100, "judged:disk-full": 15}
CHUNK = 10

MAKERS = ["Canon", "Nikon", "Sony", "DJI", "GoPro", "Olympus", "Test", "Fuji"]
MODELS = ["EOS 50D", "EOS 5D", "EOS 5D Mark II", "D700", "D7000", "D70", "DSC-W1", "FC220", "Hero3-Silver Edition", "E-M1", "C 1", "X", "EOS 50", "50D"]


class Network:
    """ stands in for the transport of requests; every access is recorded """

    def __init__(self):
        self.calls = []
        self.answer = None

    def __enter__(self):
        import requests
        self.old = requests.adapters.HTTPAdapter.send

        def send(adapter, request, *args, **kwargs):
            self.calls.append(request.url)
            if isinstance(self.answer, Exception):
                raise self.answer
            status, data = self.answer
            r = requests.Response()
            r.status_code, r.url, r.request, r.reason = status, request.url, request, "reason"
            r.raw = io.BytesIO(data) if isinstance(data, bytes) else data
            r.encoding = "utf-8"
            r.headers["Content-Type"] = "text/plain; charset=utf-8"
            return r
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *args):
        import requests
        requests.adapters.HTTPAdapter.send = self.old


class Cut:
    """ a body which breaks off """

    def __init__(self, data):
        self.data = data

    def read(self, *args, **kwargs):
        if self.data:
            d, self.data = self.data, b""
            return d
        import requests
        raise requests.exceptions.ChunkedEncodingError("connection broken")

    def stream(self, *args, **kwargs):
        yield self.read()
        self.read()

    def close(self):
        pass

    def release_conn(self):
        pass


def database(ctx):
    lines = ["CameraMaker;CameraModel;SensorDescription;SensorWidth(mm);SensorHeight(mm);SensorWidth(pixels);SensorHeight(pixels)"]
    content = {}
    for _ in range(int(ctx.rng.integers(3, 40))):
        maker, model = ctx.pick(MAKERS), ctx.pick(MODELS)
        sw, sh = [round(float(v), int(ctx.rng.integers(0, 5))) for v in ctx.rng.uniform(1, 40, 2)]
        fmt = ctx.pick(["%s", "%.2f", "%.3f"])
        a, b = fmt % sw, fmt % sh
        lines.append("%s;%s;%s;%s;%s;%d;%d" % (maker, model, ctx.pick(["APS-C", "1/2.3''", "Full frame (36 x 24 mm)", "é½"]), a, b, ctx.rng.integers(100, 9000), ctx.rng.integers(100, 9000)))
        content.setdefault("%s %s" % (maker, model), (float(a), float(b)))
    return "\n".join(lines) + ctx.pick(["\n", ""]), content


def image_file(ctx, path, model):
    """ a JPEG file with EXIF information, returns what it says """
    from PIL import Image, TiffImagePlugin
    w, h = int(ctx.rng.integers(8, 60)), int(ctx.rng.integers(8, 60))
    im = Image.fromarray(np.zeros((h, w, 3), dtype=np.uint8))
    e = Image.Exif()
    e[272] = model
    e[271] = model.split(" ")[0]
    ifd = e.get_ifd(0x8769)
    num, den = int(ctx.rng.integers(1, 40000)), int(ctx.pick([1, 10, 100, 1000, 7]))
    ifd[37386] = TiffImagePlugin.IFDRational(num, den)
    ew, eh = (w, h) if ctx.chance(0.3) else (int(ctx.rng.integers(100, 9000)), int(ctx.rng.integers(100, 9000)))
    ifd[40962], ifd[40963] = ew, eh
    has = ctx.chance(0.8)
    sensor = None
    if has:
        rx, ry = [int(v) for v in ctx.rng.integers(10000, 9000000, 2)]
        dx, dy = [int(ctx.pick([1, 10, 100, 1000, 225])) for _ in range(2)]
        ifd[41486], ifd[41487] = TiffImagePlugin.IFDRational(rx, dx), TiffImagePlugin.IFDRational(ry, dy)
        unit = ctx.pick([None, 2, 2, 3])
        if unit is not None:
            ifd[41488] = unit
        mm = 10 if unit == 3 else 25.4
        sensor = (ew / (rx / dx) * mm, eh / (ry / dy) * mm)
    im.save(path, exif=e)
    return dict(f=num / den, image=(ew, eh), exif=sensor, model=model)


@contextlib.contextmanager
def directory(ctx, name):
    old = os.getcwd()
    d = ctx.tmp(name)
    os.makedirs(d)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)


DB = "sensor_database_detailed.csv"


def read(path=DB):
    return open(path, "rb").read() if os.path.exists(path) else None


def judge(ctx, got, info, sensor):
    f, s, im = got
    ctx.check(abs(float(f) - info["f"]) <= 1e-9 * info["f"], "focal", "the focal length is %s and not %s" % (f, info["f"]))
    ctx.check(tuple(int(v) for v in im) == info["image"], "image", "the image size is %s and not %s" % (im, info["image"]))
    ctx.check(len(s) == 2 and all(abs(float(a) - b) <= 1e-9 * b for a, b in zip(s, sensor)), "sensor-exif" if sensor == info["exif"] else "sensor-database",
              "the sensor of %s is %s mm and not %s" % (info["model"], s, sensor), info=info)


def history(ctx):
    import requests
    C = gen.ct()
    with directory(ctx, "h"), Network() as net:
        text, content = database(ctx)
        mode = ctx.pick(["there", "download", "download", "empty"])
        if mode == "there":
            with open(DB, "w", encoding="utf8") as fp:
                fp.write(text)
        elif mode == "empty":
            open(DB, "w").close()
            content = {}
        for step in range(int(ctx.rng.integers(3, 7))):
            model = ctx.pick(sorted(content)) if content and ctx.chance(0.6) else "%s %s" % (ctx.pick(MAKERS), ctx.pick(MODELS))
            info = image_file(ctx, "im%d.jpg" % step, model)
            fault = None
            before = read()
            net.calls.clear()
            if before is None and ctx.chance(0.5):
                fault = ctx.pick([requests.exceptions.ConnectionError("no network"), requests.exceptions.Timeout("too slow"), (404, b"404: Not Found"), (500, b"<html>error</html>"), (503, text.encode("utf8")),
                                  (403, b""), (200, Cut(text.encode("utf8")[:len(text) // 2]))])
            net.answer = fault if fault is not None else (200, text.encode("utf8"))
            use_db = ctx.chance(0.8)
            kw = {} if use_db and ctx.chance(0.7) else dict(sensor_from_database=use_db)
            verbose = ctx.chance(0.3)
            if verbose:
                kw["verbose"] = True
            ctx.note(step=step, model=model, database=before is not None, fault=str(fault)[:60], **kw)
            out = io.StringIO()
            error = got = None
            try:
                with contextlib.redirect_stdout(out):
                    got = C.getCameraParametersFromExif("im%d.jpg" % step, **kw)
            except Exception as err:
                error = err
            after = read()
            if not use_db or before is not None:
                ctx.check(not net.calls, "no-network", "the network was used without need")
                ctx.check(before == after, "database-kept", "the existing database was changed")
            if fault is not None and use_db:
                ctx.check(after is None, "no-broken-database", "after a failed download there is a database: %s" % after[:60] if after else "", fault=str(fault)[:80])
                if error is None:
                    ctx.check(info["exif"] is not None, "fault", "a failed download gave %s" % (got,))
                    judge(ctx, got, info, info["exif"])
                else:
                    ctx.check(isinstance(error, (requests.exceptions.RequestException, OSError, ValueError, KeyError)), "fault", "a failed download ended in %r" % error)
                ctx.seen("fault", str(fault)[:30], error is None)
                continue
            if use_db and before is None:
                ctx.check(after is not None and after.decode("utf8").replace("\r\n", "\n") == text, "recover", "after the download the database is %s" % (after or b"")[:60])
                ctx.check(len(net.calls) == 1, "recover", "the database was downloaded %d times" % len(net.calls))
            want = content.get(model) if use_db else None
            source = "database" if want else "exif"
            want = want or info["exif"]
            if want is None:
                ctx.check(error is not None, "fault", "the sensor size is unknown but %s was returned" % (got,), info=info)
            else:
                ctx.check(error is None, "fault", "getCameraParametersFromExif raised %r" % error, info=info, kw=kw)
                judge(ctx, got, info, want)
                if verbose:
                    o = out.getvalue()
                    ctx.check(all(v in o for v in (model, "%.1f mm" % info["f"], "%.1f mm × %.1f mm" % want, "%d × %d" % info["image"])), "verbose", "the report is %r" % o, info=info, sensor=want)
                # the parameters describe a projection
                p = C.RectilinearProjection(focallength_mm=got[0], sensor=got[1], image=got[2])
                ctx.check(abs(float(p.focallength_x_px) - info["f"] * info["image"][0] / want[0]) <= 1e-6 * abs(float(p.focallength_x_px)), "focal", "the projection has the focal length %s px" % p.focallength_x_px)
            ctx.seen(source, mode, kw.get("sensor_from_database"), want is None, verbose)
        ctx.check(sorted(n for n in os.listdir(".") if not n.startswith("im")) in ([], [DB]) or any(n.startswith(DB) for n in os.listdir(".")), "database-kept", "unexpected files %s" % os.listdir("."))
        ctx.sample(mode=mode, models=len(content))


def similar(ctx):
    """ models whose names begin or end like others """
    C = gen.ct()
    with directory(ctx, "s"), Network() as net:
        net.answer = (404, b"")
        names = ["EOS 5D", "EOS 5D Mark II", "EOS 50D", "EOS 5", "5D", "EOS 5D Mark", "EOS  5D", "eos 5d"]
        order = ctx.rng.permutation(len(names))
        maker = ctx.pick(["Canon", "canon", "Canon Inc"])
        lines, content = [], {}
        for i in order:
            sw, sh = round(float(ctx.rng.uniform(3, 40)), 2), round(float(ctx.rng.uniform(3, 40)), 2)
            lines.append("Canon;%s;x;%s;%s;1;1" % (names[i], sw, sh))
            content["Canon " + names[i]] = (sw, sh)
        for decoy in ("ACanon", "Old Canon", "canon", "Canon Inc", "Canon Inc Canon"):
            if ctx.chance(0.5):
                lines.insert(int(ctx.rng.integers(len(lines))), "%s;%s;x;%s;%s;1;1" % (decoy, ctx.pick(names), 77.5, 66.5))
        left = [n for n in content]
        gone = ctx.pick(left)
        lines = [l for l in lines if not l.startswith("Canon;%s;" % gone[6:])]
        del content[gone]
        # broken lines of other models do not matter
        if ctx.chance(0.5):
            lines.insert(int(ctx.rng.integers(len(lines))), ctx.pick(["", ";", "Nikon;D1", "Nikon;D1;x;;;1;1", "Nikon;D1;x;n/a;n/a"]))
        with open(DB, "w") as fp:
            fp.write("\n".join(lines) + "\n")
        for i, m in enumerate([gone] + list(ctx.rng.permutation(list(content)))[:3]):
            info = image_file(ctx, "im%d.jpg" % i, str(m))
            want = content.get(str(m)) or info["exif"]
            try:
                got = C.getCameraParametersFromExif("im%d.jpg" % i)
            except Exception as err:
                ctx.check(want is None, "model", "the model %s raised %r" % (m, err))
                continue
            ctx.check(want is not None, "model", "an unknown model %s got the sensor %s" % (m, got[1]))
            ctx.check(all(abs(a - b) <= 1e-9 * b for a, b in zip(got[1], want)), "model", "the sensor of %s is %s and not %s" % (m, got[1], want), lines=lines)
            ctx.seen("similar", str(m), str(m) == gone)


def broken(ctx):
    """ a database whose line of the model is broken """
    C = gen.ct()
    with directory(ctx, "b"), Network() as net:
        net.answer = (404, b"")
        line = ctx.pick(["Canon;EOS 5D", "Canon;EOS 5D;x", "Canon;EOS 5D;x;36", "Canon;EOS 5D;x;;", "Canon;EOS 5D;x;n/a;n/a;1;1", "Canon;EOS 5D;x;36,0;24,0;1;1"])
        data = ("Nikon;D1;x;23.7;15.6;1;1\n" + line + "\n").encode()
        with open(DB, "wb") as fp:
            fp.write(data)
        info = image_file(ctx, "im.jpg", "Canon EOS 5D")
        try:
            got = C.getCameraParametersFromExif("im.jpg")
        except Exception:
            got = None
        if got is not None:
            ctx.check(info["exif"] is not None and all(abs(a - b) <= 1e-9 * b for a, b in zip(got[1], info["exif"])), "fault", "a broken line gave the sensor %s" % (got[1],), line=line)
        else:
            ctx.count["judged:fault"] += 1
        ctx.check(read() == data, "database-kept", "the database was changed")
        ctx.seen("broken", line, got is None)


def disk_full(ctx):
    """ the disk is full, or the process is killed, while the database is written """
    C = gen.ct()
    with directory(ctx, "d"), Network() as net:
        text, content = database(ctx)
        text = text + "".join("Maker;Model %d;x;1.0;1.0;1;1\n" % i for i in range(3000))
        data = text.encode("utf8")
        net.answer = (200, data)
        info = image_file(ctx, "im.jpg", ctx.pick(sorted(content)))
        limit = int(ctx.rng.integers(0, len(data)))
        kill = ctx.chance(0.3)
        pid = os.fork()
        if pid == 0:
            # the child: its files are limited to this size
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                try:
                    C.getCameraParametersFromExif("im.jpg")
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        left = read()
        ctx.check(left is None or left == data, "no-broken-database", "after %s at byte %d of %d there is a database of %d bytes" % ("a crash" if kill else "a full disk", limit, len(data), len(left or b"")))
        # afterwards everything works again
        got = ctx.call("getCameraParametersFromExif", C.getCameraParametersFromExif, "im.jpg")
        judge(ctx, got, info, content[info["model"]])
        ctx.check(read() == data, "disk-full", "the database was not repaired after the fault")
        ctx.seen("disk-full", kill, limit * 8 // len(data))


SCENARIOS = dict(history=(history, 150, 5000), similar=(similar, 80, 2000), broken=(broken, 40, 500), disk_full=(disk_full, 30, 500))
