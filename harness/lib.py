"""Binding between specification terms and the objects of the library under test.

build      term  -> real object
project    real object -> term (exact rationals)
observe    everything the specification wants to know about a result
"""
import copy
import math
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import wbml.warning  # noqa: E402


def _cheap_warn(message, category=UserWarning, *args, **kw):
    warnings.warn(message, category=category)


# `warn_upmodule` walks the stack, which is very slow.
wbml.warning.warn_upmodule = _cheap_warn

import lab as B  # noqa: E402
import numpy as np  # noqa: E402
import matrix  # noqa: E402
from matrix import (  # noqa: E402
    AbstractMatrix,
    Constant,
    Dense,
    Diagonal,
    Kronecker,
    LowerTriangular,
    LowRank,
    TiledBlocks,
    UpperTriangular,
    Woodbury,
    Zero,
)
from matrix.util import ToDenseWarning  # noqa: E402

assert os.path.realpath(matrix.__file__).startswith(os.path.realpath(REPO)), matrix.__file__

NAN, PINF, NINF = 1000000007, 1000000009, -1000000009
NPDT = {"f8": np.float64, "f4": np.float32, "i8": np.int64}
DT = dict(NPDT)  # Data types of the backend under test
BIG = 1 << 29


# ------------------------------------------------------------------- backends
class NumPy:
    name = "numpy"

    @staticmethod
    def arr(x):
        return x


class Jax:
    name = "jax"

    @staticmethod
    def arr(x):
        import jax.numpy as jnp

        return jnp.array(x)


BACKENDS = {"numpy": NumPy, "jax": Jax}


def use_backend(name):
    if name == "jax":
        import lab.jax  # noqa: F401
        import jax.numpy as jnp

        DT.update(f8=jnp.float64, f4=jnp.float32, i8=jnp.int64)
    return BACKENDS[name]


# ----------------------------------------------------------------- term -> real
def tensor(m, dt, bk):
    e = [
        math.nan if x == NAN else math.inf if x == PINF else -math.inf if x == NINF else x / m["d"]
        for x in m["e"]
    ]
    x = np.array(e, dtype=NPDT[dt]).reshape(tuple(m["s"]))
    return bk.arr(x)


def build(t, dt, bk):
    k = t["k"]
    if k == "Num":
        x = t["m"]["e"][0]
        return x if t["m"]["d"] == 1 else x / t["m"]["d"]
    if k == "Arr":
        return tensor(t["m"], dt, bk)
    if k == "Zero":
        return Zero(DT[dt], *t["s"])
    if k == "Dense":
        return Dense(tensor(t["m"], dt, bk))
    if k == "LT":
        return LowerTriangular(tensor(t["m"], dt, bk))
    if k == "UT":
        return UpperTriangular(tensor(t["m"], dt, bk))
    if k == "Diag":
        return Diagonal(tensor(t["v"], dt, bk))
    if k == "Const":
        c = tensor(t["c"], dt, bk)
        c = c[()] if bk is NumPy and c.shape == () else c
        return Constant(c, t["r"], t["q"])
    if k == "LR":
        left = build(t["l"], dt, bk)
        right = None if t["rd"] else build(t["r"], dt, bk)
        mid = None if t["md"] else build(t["mid"], dt, bk)
        return LowRank(left, right, mid)
    if k == "Wb":
        return Woodbury(build(t["dg"], dt, bk), build(t["lr"], dt, bk))
    if k == "Kr":
        return Kronecker(build(t["l"], dt, bk), build(t["r"], dt, bk))
    if k == "TB":
        return TiledBlocks(
            *[(build(b, dt, bk), n) for b, n in zip(t["b"], t["n"])], axis=t["ax"]
        )
    raise ValueError(k)


# ----------------------------------------------------------------- real -> term
def _simplest(x, tol, maxden):
    """Continued-fraction convergent of smallest denominator within `tol`."""
    h0, k0, h1, k1 = 0, 1, 1, 0
    y = x
    for _ in range(40):
        a = math.floor(y)
        h0, h1 = h1, a * h1 + h0
        k0, k1 = k1, a * k1 + k0
        if k1 > maxden:
            return None
        if abs(x - h1 / k1) <= tol:
            return h1, k1
        fr = y - a
        if fr < 1e-14:
            return None
        y = 1 / fr
    return None


BAD = {"s": [-1], "d": 1, "e": []}
TOLS = {"f8": (3e-8, 2000), "f4": (2e-6, 600)}


def rational(x, prec="f8"):
    """Exact rational tensor for a numeric array, or `BAD`."""
    x = np.asarray(x)
    if x.dtype == object or x.dtype.kind not in "fiub":
        return BAD
    shape = [int(d) for d in x.shape]
    if x.dtype == np.float32:
        prec = "f4"
    tol, maxden = TOLS[prec]
    flat = x.astype(np.float64).reshape(-1)
    fin = np.isfinite(flat)
    vals = np.where(fin, flat, 0.0)
    if np.any(np.abs(vals) >= BIG):
        return BAD
    den = 1
    scale = tol * (1 + np.abs(vals))
    for d in (1, 2, 4, 12):
        if np.all(np.abs(np.rint(vals * d) / d - vals) <= np.minimum(scale, 0.2 / d)):
            den = d
            break
    else:
        den = next((d for d in (8, 16, 32, 64, 128, 256, 512, 1024) if np.all(np.rint(vals * d) == vals * d)), 0)
    if den == 0:
        den = 1
        for v, s in zip(vals, scale):
            r = _simplest(v, s, maxden)
            if r is None:
                return BAD
            den = den * r[1] // math.gcd(den, r[1])
            if den > 200000:
                return BAD
    nums = np.rint(vals * den)
    if np.any(np.abs(nums) >= BIG):
        return BAD
    e = [int(n) for n in nums]
    g = den
    for n in e:
        g = math.gcd(g, n)
        if g == 1:
            break
    if g > 1:
        e = [n // g for n in e]
        den //= g
    for i in np.nonzero(~fin)[0]:
        v = flat[i]
        e[i] = NAN if math.isnan(v) else PINF if v > 0 else NINF
    return {"s": shape, "d": int(den), "e": e}


def blank(t):
    """A projected term without its numbers: what is left is its structure."""
    if isinstance(t, dict):
        return BAD if "e" in t and "d" in t else {k: blank(v) for k, v in t.items()}
    return [blank(v) for v in t] if isinstance(t, list) else t


def scaled(x, k, mid):
    """`x` times `2 ** k`.  The factors of products share the scale, or (`mid`) only the middle factor has it."""
    c = 2.0 ** k
    h = k // 2
    if isinstance(x, (Zero, bool)):
        return x
    if isinstance(x, (int, float)) and not isinstance(x, np.generic):
        return x * c if x else x
    if not isinstance(x, AbstractMatrix):
        return np.asarray(x * c, dtype=x.dtype) if isinstance(x, np.ndarray) else x * c
    if isinstance(x, (Dense, LowerTriangular, UpperTriangular)):
        return type(x)(x.mat * c)
    if isinstance(x, Diagonal):
        return Diagonal(x.diag * c)
    if isinstance(x, Constant):
        return Constant(x.const * c, x.rows, x.cols)
    if isinstance(x, LowRank):
        if mid or (x._right is None and k % 2):
            return LowRank(x.left, x._right, scaled(x.middle, k, mid))
        r = None if x._right is None else scaled(x._right, k - h, mid)
        return LowRank(scaled(x.left, h, mid), r, x._middle)
    if isinstance(x, Woodbury):
        return Woodbury(scaled(x.diag, k, mid), scaled(x.lr, k, mid))
    if isinstance(x, Kronecker):
        return Kronecker(scaled(x.left, h, mid), scaled(x.right, k - h, mid))
    if isinstance(x, TiledBlocks):
        return TiledBlocks(*[(scaled(b, k, mid), n) for b, n in zip(x.blocks, x.reps)], axis=x.axis)
    raise ValueError(type(x))


def is_raw(x):
    return not isinstance(x, AbstractMatrix)


def to_np(x):
    return np.asarray(x)


def project(x, prec="f8"):
    """Term for an object.  Never calls anything that could fill caches of `x`."""
    if isinstance(x, Zero):
        return {"k": "Zero", "s": [int(d) for d in (*x.batch, x.rows, x.cols)]}
    if isinstance(x, Dense):
        return {"k": "Dense", "m": rational(x.mat, prec)}
    if isinstance(x, (LowerTriangular, UpperTriangular)):
        up = isinstance(x, UpperTriangular)
        m = rational(x.mat, prec)
        if m is BAD:
            a = to_np(x.mat)
            z = np.tril(a, -1) if up else np.triu(a, 1)
            m = dict(BAD, e=[] if not np.any(z) else [0])
        return {"k": "UT" if up else "LT", "m": m}
    if isinstance(x, Diagonal):
        return {"k": "Diag", "v": rational(x.diag, prec)}
    if isinstance(x, Constant):
        return {"k": "Const", "c": rational(x.const, prec), "r": int(x.rows), "q": int(x.cols)}
    if isinstance(x, LowRank):
        return {
            "k": "LR",
            "l": project(x.left, prec),
            "r": project(x.right, prec),
            "mid": project(x.middle, prec),
            "rd": x.right is x.left,
            "md": False,
            "rank": int(x.rank),
        }
    if isinstance(x, Woodbury):
        return {"k": "Wb", "dg": project(x.diag, prec), "lr": project(x.lr, prec)}
    if isinstance(x, Kronecker):
        return {"k": "Kr", "l": project(x.left, prec), "r": project(x.right, prec)}
    if isinstance(x, TiledBlocks):
        return {
            "k": "TB",
            "b": [project(b, prec) for b in x.blocks],
            "n": [int(n) for n in x.reps],
            "ax": int(x.axis),
        }
    if isinstance(x, AbstractMatrix):
        return {"k": "Other", "name": type(x).__name__}
    # NumPy scalars count as numbers.
    return {"k": "Num" if isinstance(x, B.Number) else "Arr", "m": rational(x, prec)}


def any_bad(t):
    if isinstance(t, dict):
        if t.get("s") == [-1]:
            return True
        return any(any_bad(v) for v in t.values())
    if isinstance(t, list) and t and isinstance(t[0], dict):
        return any(any_bad(v) for v in t)
    return False


def leaves(x, out=None):
    """All raw arrays (and Python numbers) inside an object."""
    out = [] if out is None else out
    if isinstance(x, (Dense, LowerTriangular, UpperTriangular)):
        out.append(x.mat)
    elif isinstance(x, Diagonal):
        out.append(x.diag)
    elif isinstance(x, Constant):
        out.append(x.const)
    elif isinstance(x, LowRank):
        for y in (x.left, x.right) + (() if x._middle is None else (x._middle,)):
            leaves(y, out)
    elif isinstance(x, Woodbury):
        leaves(x.diag, out)
        leaves(x.lr, out)
    elif isinstance(x, Kronecker):
        leaves(x.left, out)
        leaves(x.right, out)
    elif isinstance(x, TiledBlocks):
        for b in x.blocks:
            leaves(b, out)
    elif isinstance(x, Zero):
        out.append(("zero", x.dtype))
    elif not isinstance(x, AbstractMatrix):
        out.append(x)
    return out


def dt_name(d):
    try:
        d = np.dtype(d if isinstance(d, (type, np.dtype)) or any(d is v for v in DT.values()) else B.dtype(d))
    except Exception:
        try:
            d = np.dtype(B.dtype(d))
        except Exception:
            return "?"
    return {"float64": "f8", "float32": "f4", "int64": "i8", "int32": "i4", "bool": "b1"}.get(d.name, d.name)


def leaf_dts(x):
    out = set()
    for a in leaves(x):
        if isinstance(a, tuple) and a[0] == "zero":
            out.add(dt_name(a[1]))
        elif isinstance(a, (int, float)) and not isinstance(a, (np.generic,)):
            out.add("num")
        else:
            out.add(dt_name(np.asarray(a).dtype))
    return sorted(out)


def children(x):
    """Sub-objects in a fixed order (for signatures)."""
    if isinstance(x, LowRank):
        return [x.left, x._right, x._middle]
    if isinstance(x, Woodbury):
        return [x.diag, x.lr]
    if isinstance(x, Kronecker):
        return [x.left, x.right]
    if isinstance(x, TiledBlocks):
        return list(x.blocks)
    return []


def signature(x):
    """Content of an object, apart from its caches."""
    if x is None:
        return None
    if isinstance(x, Zero):
        return ("Zero", str(x.dtype), tuple(int(d) for d in (*x.batch, x.rows, x.cols)))
    if isinstance(x, (Dense, LowerTriangular, UpperTriangular)):
        return (type(x).__name__, signature(x.mat))
    if isinstance(x, Diagonal):
        return ("Diagonal", signature(x.diag))
    if isinstance(x, Constant):
        return ("Constant", signature(x.const), int(x.rows), int(x.cols))
    if isinstance(x, TiledBlocks):
        return ("TB", tuple(signature(b) for b in x.blocks), tuple(map(int, x.reps)), int(x.axis))
    if isinstance(x, AbstractMatrix):
        return (type(x).__name__, tuple(signature(c) for c in children(x)))
    a = np.asarray(x)
    return (a.shape, a.dtype.str, a.tobytes() if a.dtype != object else repr(a))


def remake(x, f):
    """The same object with fresh caches and `f` applied to all arrays in it."""
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if not isinstance(x, AbstractMatrix):
        return f(x)
    y = copy.copy(x)
    for c in CACHES:
        if not callable(getattr(y, c, callable)):
            setattr(y, c, None)
    if isinstance(x, (Dense, LowerTriangular, UpperTriangular)):
        y.mat = f(x.mat)
    elif isinstance(x, Diagonal):
        y.diag = f(x.diag)
    elif isinstance(x, Constant):
        y.const = remake(x.const, f)
    elif isinstance(x, LowRank):
        y.left = remake(x.left, f)
        y._right, y._middle = remake(x._right, f), remake(x._middle, f)
        y._middle_default = None
    elif isinstance(x, Woodbury):
        y.diag, y.lr = remake(x.diag, f), remake(x.lr, f)
    elif isinstance(x, Kronecker):
        y.left, y.right = remake(x.left, f), remake(x.right, f)
    elif isinstance(x, TiledBlocks):
        y.blocks = type(x.blocks)(remake(b, f) for b in x.blocks)
    return y


CACHES = ("dense", "cholesky", "schur")


def objects(x, out=None, seen=None):
    """All matrix objects reachable through structural fields."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, AbstractMatrix) and id(x) not in seen:
        seen.add(id(x))
        out.append(x)
        for c in children(x):
            objects(c, out, seen)
    return out


def quiet_dense(x):
    """Dense value, computed on a copy so that no cache of `x` is filled."""
    if is_raw(x):
        return np.asarray(x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(B.dense(copy.deepcopy(x)))


def gram(f):
    f = quiet_dense(f) if not is_raw(f) else np.asarray(f)
    with np.errstate(all="ignore"):
        return f @ np.swapaxes(f, -1, -2)
