"""Leave out arguments that equal their documented default, which must mean the same."""
import inspect
import json
import os

with open(os.path.join(os.path.dirname(__file__), "defaults.json")) as fp:
    TABLE = json.load(fp)


def documented(fn):
    """Documented defaults of a function, method or class."""
    f = fn.__init__ if inspect.isclass(fn) else getattr(fn, "__func__", fn)
    name = f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', '')}"
    return TABLE.get(name, {})


def is_default(value, default):
    if isinstance(value, (list, tuple)) and isinstance(default, list):
        return len(value) == len(default) and all(is_default(a, b) for a, b in zip(value, default))
    if isinstance(value, bool) or isinstance(default, bool) or value is None or default is None:
        return value is default
    return isinstance(value, (int, float, str)) and type(value) is type(default) and value == default


def leave_out(fn, kwargs, keep):
    """Arguments without those that equal their default and are not to be kept."""
    defaults = documented(fn)
    return {k: v for k, v in kwargs.items() if not (k in defaults and is_default(v, defaults[k]) and not keep())}
