"""Loaded CWL objects as plain data, for comparison."""
import re

BLANK = re.compile(r"_:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
ADDR = re.compile(r"0x[0-9a-f]{6,}")
ENTRY = re.compile(r"(#|/)_?[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")


def text(s):
    return BLANK.sub("_:blank", str(s)) if "_:" in s else str(s)


def message(x):
    return ADDR.sub("0x", text(type(x).__name__ + ": " + str(x)))[:300]


def dump(v, depth=0):
    """Everything a loaded object contains (names made up for nameless types do not matter)."""
    if isinstance(v, str):
        return text(v)
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)):
        return int(v) if isinstance(v, int) else float(v)
    if depth > 200:
        return "too deep"
    if hasattr(type(v), "attrs") and hasattr(v, "__dict__"):
        d = {"!": type(v).__module__.rsplit(".", 1)[-1] + "." + type(v).__name__}
        for k, x in v.__dict__.items():
            if k == "loadingOptions":
                if depth == 0:
                    d["namespaces"] = dump(getattr(x, "namespaces", None), depth + 1)
                continue
            if x is not None and not (k == "extension_fields" and not x):
                d[k] = dump(x, depth + 1)
        return d
    if hasattr(v, "items"):
        return {text(str(k)): dump(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)) or hasattr(v, "append"):
        return [dump(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((dump(x, depth + 1) for x in v), key=repr)
    return "%s %r" % (type(v).__name__, str(v))


def leaves(d, out=None):
    """All strings in a dump."""
    if out is None:
        out = set()
    if isinstance(d, dict):
        for x in d.values():
            leaves(x, out)
    elif isinstance(d, list):
        for x in d:
            leaves(x, out)
    elif isinstance(d, str):
        out.add(d)
    return out


def raw_links(d, path=""):
    """Places where a link was left in place."""
    out = []
    if isinstance(d, dict):
        if "$import" in d or "$include" in d:
            out.append(path)
        for k, x in d.items():
            out += raw_links(x, path + "/" + k)
    elif isinstance(d, list):
        for i, x in enumerate(d):
            out += raw_links(x, "%s/%d" % (path, i))
    return out
