"""C04, C15: everything that can be read from a report.

Used by the proof and by the worker that runs the plain code: no import of the
engine here.
"""
METHODS = ("as_dict", "to_json", "should_be_cavok")
MAX = 900


def ours(x):
    return type(x).__module__.split(".")[0] == "aeromet_py"


def properties(x):
    out = []
    for n in dir(type(x)):
        if not n.startswith("_") and isinstance(getattr(type(x), n, None), property):
            out.append(n)
    return out


def join(path, n):
    return path + "." + n if path else n


def walk(x, path, out, depth=0):
    """The paths of all the readings that start at x."""
    if len(out) > MAX or depth > 6:
        return
    if ours(x):
        for n in properties(x):
            p = join(path, n)
            out.append(p)
            try:
                v = getattr(x, n)
            except Exception:
                continue
            walk(v, p, out, depth + 1)
        for m in METHODS:
            if callable(getattr(x, m, None)):
                out.append(join(path, m + "()"))
        out.append(join(path, "__str__"))
        if hasattr(type(x), "__len__"):
            out.append(join(path, "__len__"))
        if hasattr(type(x), "__iter__"):
            out += [join(path, "__first__"), join(path, "__iter__"), join(path, "__nested__")]
            try:
                n = len(x)
            except Exception:
                n = 0
            for i in range(n):
                out.append(f"{path}[{i}]")
                try:
                    v = x[i]
                except Exception:
                    continue
                walk(v, f"{path}[{i}]", out, depth + 1)
    elif isinstance(x, (list, tuple)) and any(ours(i) for i in x):
        for i, v in enumerate(x):
            walk(v, f"{path}[{i}]", out, depth + 1)


def iterate(x, how):
    if how == "__first__":
        for i in x:
            return i
        return None
    if how == "__nested__":
        return [[a, b] for a in x for b in x]
    return [i for i in x]
