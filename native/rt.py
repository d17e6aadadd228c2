"""Native side of the contracts: the same contract text evaluated on the real code with real values."""
from __future__ import annotations

import ast
import importlib
import importlib.abc
import importlib.util
import inspect
import os
import sys
import types
import warnings

import numpy as np
import pandas as pd

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CDIR = os.path.join(VERIF, "contracts")


def setup_repo():
    repo = os.environ.get("VERIF_REPO", "/repo")
    src = os.path.join(repo, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    import chainconsumer

    got = os.path.realpath(os.path.dirname(chainconsumer.__file__))
    want = os.path.realpath(os.path.join(src, "chainconsumer"))
    if got != want:
        raise SystemExit(f"native runner imported {got}, wanted {want}")


# ------------------------------------------------------------------ spec builtins
RTOL, ATOL = 1e-9, 1e-12


def forall(n, f, lo=0):
    it = range(int(lo), int(n)) if isinstance(n, (int, np.integer)) else list(n)
    return all(truth(f(i)) for i in it)


def exists(n, f, lo=0):
    it = range(int(lo), int(n)) if isinstance(n, (int, np.integer)) else list(n)
    return any(truth(f(i)) for i in it)


def truth(v):
    if isinstance(v, (list, tuple)):
        return all(truth(x) for x in v)
    if isinstance(v, np.ndarray):
        return bool(v.all())
    return bool(v)


def implies(a, b):
    return (not truth(a)) or truth(b)


def isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))


def eq(a, b, tol=RTOL, scale=None):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        return list(a.columns) == list(b.columns) and a.shape == b.shape and eq(a.to_numpy(), b.to_numpy(), tol, scale)
    if isinstance(a, pd.Series):
        a = a.to_numpy()
    if isinstance(b, pd.Series):
        b = b.to_numpy()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        aa, bb = np.asarray(a), np.asarray(b)
        if aa.shape != bb.shape:
            return False
        if aa.dtype.kind in "biufc" and bb.dtype.kind in "biufc":
            if aa.dtype.kind == "b" or bb.dtype.kind == "b":
                return bool((aa == bb).all())
            aa, bb = aa.astype(float), bb.astype(float)
            with np.errstate(all="ignore"):
                m = np.maximum(np.abs(aa), np.abs(bb)) if scale is None else float(scale)
                ok = (np.abs(aa - bb) <= tol * m + (ATOL if scale is None else 0)) | (aa == bb) | (np.isnan(aa) & np.isnan(bb))
            return bool(np.all(ok))
        return all(eq(x, y, tol) for x, y in zip(aa.ravel().tolist(), bb.ravel().tolist()))
    if isnum(a) and isnum(b):
        a, b = float(a), float(b)
        if a == b or (a != a and b != b):
            return True
        m = max(abs(a), abs(b)) if scale is None else float(scale)
        return abs(a - b) <= tol * m + (ATOL if scale is None else 0)
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(eq(a[k], b[k], tol, scale) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y, tol, scale) for x, y in zip(a, b))
    if hasattr(a, "array") and hasattr(b, "array") and hasattr(a, "center"):
        return eq(a.center, b.center, tol, scale) and eq(a.lower, b.lower, tol, scale) and eq(a.upper, b.upper, tol, scale)
    if type(a) is type(b) and hasattr(a, "model_fields_set"):
        return eq(dict(a.__dict__), dict(b.__dict__), tol, scale)
    try:
        return bool(a == b)
    except Exception:
        return False


def lazyif(c, a, b):
    return a() if truth(c) else b()


def firstidx(n, f):
    for i in range(int(n)):
        if truth(f(i)):
            return i
    return int(n)


def sumof(n, f):
    import math

    return math.fsum(float(f(i)) for i in range(int(n)))


def is_none(x):
    return x is None


NAN = float("nan")


def val(x):
    return NAN if x is None else x


def le(a, b, tol=RTOL):
    a, b = float(a), float(b)
    return a <= b + tol * max(abs(a), abs(b)) + ATOL


def lt(a, b):
    return float(a) < float(b)


def finite(a):
    return bool(np.all(np.isfinite(a)))


def nrows(df):
    return len(df)


def cell(df, c, i):
    return df[c].to_numpy()[int(i)]


def distinct(l):
    l = list(l)
    return all(l[i] != l[j] for i in range(len(l)) for j in range(i))


def sorted_lt(a):
    a = np.asarray(a)
    return bool(np.all(a[1:] > a[:-1]))


def sorted_le(a):
    a = np.asarray(a, dtype=float)
    return bool(np.all(a[1:] >= a[:-1] - 1e-12))


def nonneg(a):
    return bool(np.all(np.asarray(a) >= 0))


def same_object(a, b):
    return a is b


def cells_equal(a, b):
    return list(a.columns) == list(b.columns) and a.shape == b.shape and bool(
        ((a.to_numpy() == b.to_numpy()) | (pd.isna(a).to_numpy() & pd.isna(b).to_numpy())).all())


EXTRA = {}


def prelude():
    from scipy.integrate import simpson
    from scipy.interpolate import griddata, interp1d
    from scipy.ndimage import gaussian_filter
    from scipy.stats import normaltest

    d = {k: globals()[k] for k in ("forall", "exists", "implies", "eq", "lazyif", "firstidx", "sumof", "is_none", "val", "le", "lt",
                                   "finite", "nrows", "cell", "distinct", "sorted_lt", "sorted_le", "nonneg", "same_object", "cells_equal", "np", "pd", "truth")}
    d.update(simpson=simpson, griddata=griddata, interp1d=interp1d, gaussian_filter=gaussian_filter, normaltest=normaltest)
    try:
        from scipy.stats import norm
        from statsmodels.regression.linear_model import yule_walker

        d["yule_walker"] = yule_walker
        d["norm"] = norm
    except ImportError:
        pass
    d["NATIVE"] = True
    d.update(EXTRA)
    return d


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name == "contracts":
            s = importlib.util.spec_from_loader(name, self, is_package=True)
            s.submodule_search_locations = [CDIR]
            return s
        if name.startswith("contracts."):
            return importlib.util.spec_from_loader(name, self)
        return None

    def exec_module(self, m):
        if m.__name__ == "contracts":
            return
        path = os.path.join(CDIR, m.__name__.split(".")[1] + ".py")
        m.__dict__.update(prelude())
        m.__file__ = path
        exec(compile(open(path).read(), path, "exec"), m.__dict__)


def install():
    sys.meta_path.insert(0, _Finder())


def load(name):
    return importlib.import_module("contracts." + name)


def contract_classes(prop=None):
    out = []
    for fn in sorted(os.listdir(CDIR)):
        if fn.endswith(".py") and fn != "__init__.py":
            m = load(fn[:-3])
            for k, v in list(m.__dict__.items()):
                if inspect.isclass(v) and "target" in v.__dict__ and v.__module__ == m.__name__:
                    if prop is None or prop in v.__dict__.get("props", []):
                        out.append((f"{fn[:-3]}.{k}", v))
    return out


def resolve(target):
    parts = target.split(".")
    for k in range(len(parts) - 1, 0, -1):
        try:
            m = importlib.import_module("chainconsumer." + ".".join(parts[:k]))
        except ModuleNotFoundError:
            continue
        o, owner = m, None
        for p in parts[k:]:
            owner, o = o, getattr(o, p)
        return o, owner
    raise KeyError(target)


def params(fn):
    return list(inspect.signature(fn).parameters)


def call_spec(con, name, env):
    fn = con.__dict__[name]
    fn = fn.__func__ if isinstance(fn, staticmethod) else fn
    return fn(*[env[p] for p in params(fn)])


class Failure(Exception):
    pass


class Skip(Exception):
    pass


class Interface(Exception):
    """the target no longer takes the arguments the contract speaks of: nothing can be said about it here"""


def broken_interface(e):
    """the exception comes from an internal name or signature that has changed, not from a value"""
    t = str(e)
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, AttributeError):
        return "NoneType" not in t
    if isinstance(e, TypeError):
        return any(x in t for x in ("argument", "positional", "is not callable"))
    return not isinstance(e, (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError, AssertionError))


def post(con, name, env):
    """a postcondition; one that cannot be evaluated on the outcome does not hold of it"""
    try:
        return call_spec(con, name, env)
    except Exception as e:  # noqa: BLE001
        if broken_interface(e):
            raise
        import traceback

        env["trace"] = f": {type(e).__name__} {str(e)[:100]}\n" + traceback.format_exc(limit=-3)
        return False


def invoke(con, env):
    f, owner = resolve(con.target)
    kw = dict(env)
    raw = owner.__dict__.get(con.target.split(".")[-1]) if inspect.isclass(owner) else None
    if isinstance(raw, property):
        return raw.fget(kw["self"])
    if type(raw).__name__ == "cached_property":
        return raw.func(kw["self"])
    for k in [k for k in kw if k.startswith("ghost_") or k in ("old", "result")]:
        kw.pop(k)
    if "kwargs" in kw:
        extra = kw.pop("kwargs")
        kw.update(extra)
    if isinstance(raw, (staticmethod, classmethod)) or inspect.isclass(f):
        kw.pop("self", None)
        kw.pop("cls", None)
        return f(**kw)
    if "self" in kw and inspect.isclass(owner):
        s = kw.pop("self")
        return f(s, **kw)
    return f(**kw)


def check_interface(con, f, given):
    if inspect.isclass(f) or not callable(f):
        return
    try:
        ps = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return
    if any(p.kind is inspect.Parameter.VAR_KEYWORD for p in ps):
        return
    need = {p.name for p in ps if p.default is inspect.Parameter.empty and p.kind is not inspect.Parameter.VAR_POSITIONAL} - {"self", "cls"}
    if need - given or given - {p.name for p in ps}:
        raise Interface(f"{con.target} takes {[p.name for p in ps]}, the contract gives {sorted(given)}")


def run_case(con, env):
    """evaluate one contract on one concrete case: None when it holds, a message when it does not; Skip when outside requires"""
    env = dict(env)
    given = {k for k in env if not k.startswith("ghost_") and k not in ("self", "cls", "kwargs")}
    f, owner = resolve(con.target)
    try:
        sig = inspect.signature(f)
        for p in sig.parameters.values():
            if p.name not in env and p.default is not inspect.Parameter.empty:
                env[p.name] = p.default
    except (TypeError, ValueError):
        pass
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if "requires" in con.__dict__ and not truth(call_spec(con, "requires", env)):
            raise Skip
        env["old"] = call_spec(con, "old", env) if "old" in con.__dict__ else None
        raises = call_spec(con, "raises", env) if "raises" in con.__dict__ else {}
        due = [k for k, c in raises.items() if truth(c)]
        callenv = {k: v for k, v in env.items()}
        check_interface(con, f, given)
        try:
            res = invoke(con, callenv)
        except Exception as e:  # noqa: BLE001
            names = [c.__name__ for c in type(e).__mro__]
            if type(e).__name__ == "ValidationError":
                names.append("ValueError")
            if any(k in names for k in due):
                if "ensures_raised" in con.__dict__ and not truth(post(con, "ensures_raised", env)):
                    return f"ensures_raised fails after {type(e).__name__}"
                return None
            import traceback

            return f"raised {type(e).__name__}: {str(e)[:300]} where the contract allows {due or 'no exception'}\n" + traceback.format_exc(limit=-4)
        if due:
            return f"returned normally where the contract demands {due}"
        env["result"] = res
        if "value" in con.__dict__ and not eq(res, call_spec(con, "value", env)):
            return "value: the result is not the specified value"
        for name in con.__dict__:
            if name.startswith("ensures") and name != "ensures_raised":
                r = post(con, name, env)
                if isinstance(r, (list, tuple)):
                    for j, x in enumerate(r):
                        if not truth(x):
                            return f"{name}[{j}] does not hold"
                elif not truth(r):
                    return f"{name} does not hold{env.get('trace', '')}"
    return None
