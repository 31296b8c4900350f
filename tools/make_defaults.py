"""Record the documented default arguments of the library (run once, on the pinned tree)."""
import importlib, inspect, json, os, pkgutil, sys

sys.path.insert(0, os.path.join(os.environ.get("GLIMPSE_REPO", "/repo"), "src"))
import glimpse

table = {}
SIMPLE = (bool, int, float, str, type(None))


def simple(v):
    return isinstance(v, SIMPLE) or isinstance(v, tuple) and all(isinstance(i, SIMPLE) for i in v)


def record(f, name):
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return
    d = {k: p.default for k, p in sig.parameters.items() if p.default is not p.empty and simple(p.default)}
    if d:
        table[name] = d


for _, name, _ in pkgutil.walk_packages(glimpse.__path__, "glimpse."):
    mod = importlib.import_module(name)
    for key, obj in vars(mod).items():
        if getattr(obj, "__module__", None) != name or key.startswith("_"):
            continue
        if inspect.isfunction(obj):
            record(obj, f"{name}.{obj.__qualname__}")
        elif inspect.isclass(obj):
            for k, f in vars(obj).items():
                f = f.__func__ if isinstance(f, (classmethod, staticmethod)) else f
                if inspect.isfunction(f) and (k == "__init__" or not k.startswith("_")):
                    record(f, f"{name}.{f.__qualname__}")
out = os.path.join(os.path.dirname(__file__), "..", "gmon", "defaults.json")
with open(out, "w") as fp:
    json.dump(table, fp, indent=1, sort_keys=True)
print(len(table))
