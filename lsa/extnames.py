"""Names that the installed array libraries define, read from their stub files (they are not imported)."""
import ast
import glob
import os

SITE = os.environ.get("LSA_SITE") or (glob.glob("/opt/venv/lib/python3*/site-packages") + [""])[0]
FILES = {"numpy": "numpy/__init__.pyi", "jax.numpy": "jax/numpy/__init__.pyi", "numpy.linalg": "numpy/linalg/__init__.pyi", "jax.numpy.linalg": "jax/numpy/linalg.py"}
# numpy leaves these out of __all__
HIDDEN = {"numpy": {"min", "max", "round", "abs", "long", "unicode", "issubdtype"}}
_cache = {}


def names(lib):
    """Set of the public names of a library, None if it cannot be read."""
    if lib not in _cache:
        _cache[lib] = _read(lib)
    return _cache[lib]


def _read(lib):
    p = os.path.join(SITE, FILES.get(lib, "?"))
    if lib not in FILES or not os.path.exists(p):
        return None
    try:
        t = ast.parse(open(p).read())
    except (OSError, SyntaxError):
        return None
    out = {}
    for s in t.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out[s.name] = s
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out[s.target.id] = s
        elif isinstance(s, ast.Assign):
            for x in s.targets:
                if isinstance(x, ast.Name):
                    out[x.id] = s
        elif isinstance(s, (ast.ImportFrom, ast.Import)):
            for a in s.names:
                out[(a.asname or a.name).split(".")[0]] = s
    return out


def star(lib):
    """Names bound by 'from lib import *'."""
    n = names(lib)
    return None if n is None else {x for x in n if not x.startswith("_")} - HIDDEN.get(lib, set())
