"""
The event bus: every public function and method of cameratransform is wrapped from the outside (the repository is not
changed), so that each call becomes an event. Monitors see the calls at the client boundary (depth 0) with the
arguments before and after the call. The wrapping looks at what the package defines at run time, not at how its source
is written.
"""
import collections
import functools
import inspect
import threading

events = collections.Counter()
_local = threading.local()
_monitors = []


def reset():
    events.clear()
    _monitors.clear()
    _local.depth = 0


def snapshot():
    return collections.Counter(events)


def subscribe(monitor):
    """ monitor.before(op, obj, args, kwargs) -> token;  monitor.after(token, result, error) """
    _monitors.append(monitor)


def unsubscribe(monitor):
    if monitor in _monitors:
        _monitors.remove(monitor)


class pause:
    """ calls made by a monitor itself are no events """

    def __enter__(self):
        self.old = getattr(_local, "paused", False)
        _local.paused = True

    def __exit__(self, *args):
        _local.paused = self.old


def _wrap(op, fn, is_method):
    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        if getattr(_local, "paused", False):
            return fn(*args, **kwargs)
        depth = getattr(_local, "depth", 0)
        events[op] += 1
        if depth > 0 or not _monitors:
            _local.depth = depth + 1
            try:
                return fn(*args, **kwargs)
            finally:
                _local.depth = depth
        obj, rest = (args[0], args[1:]) if is_method else (None, args)
        with pause():
            tokens = [(m, m.before(op, obj, rest, kwargs)) for m in list(_monitors)]
        _local.depth = depth + 1
        result = error = None
        try:
            result = fn(*args, **kwargs)
        except Exception as err:
            error = err
        finally:
            _local.depth = depth
        with pause():
            for m, token in tokens:
                m.after(token, result, error)
        if error is not None:
            raise error
        return result
    wrapper.__rtm__ = True
    return wrapper


def install():
    import cameratransform
    import sys
    modules = [m for name, m in sorted(sys.modules.items())
               if m is not None and (name == "cameratransform" or name.startswith("cameratransform."))]
    done = {}
    for module in modules:
        for name, value in list(vars(module).items()):
            if inspect.isclass(value) and getattr(value, "__module__", "").startswith("cameratransform"):
                if value in done or value.__name__ in ("Parameter", "DefaultAccess", "ParameterSet", "normal", "normal_bounded"):
                    continue
                done[value] = True
                for attr, fn in list(vars(value).items()):
                    if inspect.isfunction(fn) and not attr.startswith("_") and not getattr(fn, "__rtm__", False):
                        setattr(value, attr, _wrap("%s.%s" % (value.__name__, attr), fn, True))
    for module in modules:
        for name, value in list(vars(module).items()):
            if inspect.isfunction(value) and value.__module__.startswith("cameratransform") and not name.startswith("_") \
                    and not getattr(value, "__rtm__", False):
                if value not in done:
                    done[value] = _wrap(value.__name__, value, False)
                setattr(module, name, done[value])
    return cameratransform
