"""Executing one call of the specification on real objects."""
import re
import warnings

import numpy as np
import wbml.out
from lab.shape import Shape
from matrix.shape import broadcast, compatible, expand_and_broadcast
from lib import (B, leaves, AbstractMatrix, is_raw, quiet_dense, gram, DT, Constant, Dense, Diagonal, Kronecker,
                 LowerTriangular, LowRank, TiledBlocks, UpperTriangular, Woodbury, Zero)


def _idx(p):
    f, idx = p["form"], list(p["idx"])
    if f == "list":
        return idx
    if f == "tuple":
        return tuple(idx)
    if f == "array":
        return np.array(idx, dtype=int)
    if f in ("deep", "deepmask"):  # Not a list of positions.
        return np.array([idx], dtype=bool if f == "deepmask" else int)
    b = [bool(i) for i in idx]
    if f == "masklist":
        return b
    if f == "masktuple":
        return tuple(b)
    return np.array(b, dtype=bool)


NOAX = 99


class _State(np.random.RandomState):
    """A random state that counts how many normal vectors have been drawn."""

    def __new__(cls, off):
        return super().__new__(cls)

    def __init__(self, off):
        super().__init__(0)
        self.off = off


WIDTH = 40


def _randn(state, dtype, *shape):
    """Stands in for random noise: consecutive blocks of an identity matrix, one per state."""
    if not shape:
        dtype, shape = B.dtype(dtype), B.shape(dtype)
    shape = tuple(int(s) for s in shape)
    k, num = shape[-2], shape[-1]
    z = np.zeros(shape, dtype=dtype)
    for i in range(k):
        if state.off + i < num:
            z[..., i, state.off + i] = 1
    return _State(state.off + k), z


class SampleError(Exception):
    pass


def sample(a, p):
    """Draw twice in a row; the second draw has to be independent of the first."""
    keep = B.randn, B.global_random_state, B.set_global_random_state
    cell = [_State(0)]

    def put(state):
        cell[0] = state

    B.randn, B.global_random_state, B.set_global_random_state = _randn, lambda *_: cell[0], put
    try:
        if p["n"] == 2:
            s, s2 = B.sample(a, num=WIDTH), B.sample(a, num=WIDTH)
            one = B.sample(a)
        else:
            state, s = B.sample(cell[0], a, num=WIDTH)
            state, s2 = B.sample(state, a, num=WIDTH)
            _, one = B.sample(state, a)
    finally:
        B.randn, B.global_random_state, B.set_global_random_state = keep
    x, y = quiet_dense(s), quiet_dense(s2)
    with np.errstate(all="ignore"):
        cross = x @ np.swapaxes(y, -1, -2)
    if np.any(np.abs(cross) > 1e-5) or not np.allclose(gram(x), gram(y), rtol=1e-4, atol=1e-5, equal_nan=True):
        raise SampleError("subsequent samples are not independent")
    if tuple(B.shape(one)) != tuple(B.shape(s))[:-1] + (1,):
        raise SampleError("one sample has the wrong shape")
    return s


class FlagError(Exception):
    pass


class DescribeError(Exception):
    pass


Nothing = object()


def squash(text):
    return "".join(text.split())


def shown(x):
    if x is Nothing:
        return ""
    if isinstance(x, str):
        return x
    return repr(x) if isinstance(x, AbstractMatrix) else wbml.out.format(x, False)


def parts(a):
    """The parts of a matrix that its representation lists."""
    if isinstance(a, LowRank):
        out = [("left=", a.left)]
        if not isinstance(a.middle, Diagonal):  # (It is not listed when it is left out.)
            out.append(("middle=", a.middle))
        return out if a.right is a.left else out + [("right=", a.right)]
    if isinstance(a, TiledBlocks):
        out = []
        for block, rep in zip(a.blocks, a.reps):
            out += [(f"reps={rep}", Nothing), ("matrix=", block if isinstance(block, AbstractMatrix) else repr(block))]
        return out
    if isinstance(a, Zero):
        return []
    name = {Dense: ["mat"], LowerTriangular: ["mat"], UpperTriangular: ["mat"], Diagonal: ["diag"], Constant: ["const"],
            Woodbury: ["diag", "lr"], Kronecker: ["left", "right"]}[type(a)]
    return [(n + "=", getattr(a, n)) for n in name]


def describe(a):
    """Shape according to the description of a matrix."""
    s, r = str(a), repr(a)
    m = re.search(r"batch=\(([^)]*)\), shape=\(([^)]*)\)(.*)>$", s)
    if not m or not r.startswith(s[:-1]) or not r.endswith(">"):
        raise DescribeError(s)
    dt = re.search(r"dtype=(\w+)", m[3])
    if not dt or np.dtype(dt[1]) != np.dtype(B.dtype(a)):
        raise DescribeError(f"{s}: data type")
    rank = re.search(r"rank=(\d+)", m[3])
    if isinstance(a, LowRank) and (not rank or int(rank[1]) != int(a.rank)):
        raise DescribeError(f"{s}: rank")
    # Every part is shown, in order.
    flat, at = squash(r), 0
    for name, part in parts(a):
        for piece in (name, squash(shown(part))):
            at = flat.find(piece, at)
            if at < 0:
                raise DescribeError(f"{s}: {name} is not shown")
            at += len(piece)
    return np.array([int(d) for d in (m[1] + "," + m[2]).split(",") if d.strip()], dtype=int)


def run(op, p, xs):
    a = xs[0]
    b = xs[1] if len(xs) > 1 else None
    py = p["via"] == "op"
    if op == "add":
        return a + b if py else B.add(a, b)
    if op == "sub":
        return a - b if py else B.subtract(a, b)
    if op == "mul":
        return a * b if py else B.multiply(a, b)
    if op == "div":
        return a / b if py else B.divide(a, b)
    if op == "matmul":
        return a @ b if py else B.matmul(a, b, tr_a=p["ta"], tr_b=p["tb"])
    if op == "mm3":
        return B.mm(a, b, xs[2], tr_a=p["ta"], tr_b=p["tb"], tr_c=p["tc"])
    if op == "matmul_diag":
        return B.matmul_diag(a, b, tr_a=p["ta"], tr_b=p["tb"])
    if op == "kron":
        return B.kron(a, b)
    if op == "neg":
        return -a if py else B.negative(a)
    if op in ("tr", "T"):
        return a.T if op == "T" and isinstance(a, AbstractMatrix) else B.transpose(a)
    if op == "dense":
        return B.dense(a)
    if op == "to_numpy":
        return B.to_numpy(a)
    if op == "abs":
        return B.abs(a)
    if op == "power":
        return a ** p["n"] if py else B.power(a, p["n"])
    if op == "sqrt":
        return B.sqrt(a)
    if op == "isnan":
        return B.isnan(a)
    if op == "diag":
        return a.diagonal() if py and isinstance(a, AbstractMatrix) else B.diag(a) if isinstance(a, AbstractMatrix) else B.diag_extract(a)
    if op == "diag_extract":
        return B.diag_extract(a)
    if op == "trace":
        return B.trace(a) if isinstance(a, AbstractMatrix) else B.trace(a, axis1=-2, axis2=-1)
    if op in ("sum", "mean"):
        f = B.sum if op == "sum" else B.mean
        return f(a) if p["ax"] == NOAX else f(a, axis=p["ax"])
    if op == "take":
        return B.take(a, _idx(p), axis=p["ax"])
    if op == "submat":
        return B.submatrix(a, _idx(p))
    if op == "index":
        item = tuple(slice(None) if i == 77 else i for i in p["idx"])
        return a[item]
    if op == "reshape":
        sh, via = list(p["sh"]), p["via"]
        if via.endswith("minus") and 0 not in sh and sh:
            sh[sum(sh) % len(sh)] = -1
        if isinstance(a, AbstractMatrix):
            if via in ("list", "tuple"):
                return a.reshape(sh if via == "list" else tuple(sh))
            if via.startswith("op"):
                return a.reshape(*sh)
        return B.reshape(a, *sh)
    if op == "flatten":
        return a.flatten() if py else B.reshape(a, -1)
    if op == "squeeze":
        return a.squeeze() if py else B.squeeze(a)
    if op == "broadcast_to":
        return B.broadcast_to(a, *p["sh"])
    if op == "broadcast_batch_to":
        return B.broadcast_batch_to(a, *p["sh"])
    if op == "tile":
        return B.tile(a, *p["sh"])
    if op == "concat":
        return B.concat(*xs, axis=p["ax"])
    if op == "block":
        return B.block(*[[xs[k - 1] for k in row] for row in p["lay"]])
    if op == "block_diag":
        return B.block_diag(*xs)
    if op == "inv":
        return B.inv(a)
    if op == "pd_inv":
        return B.pd_inv(a)
    if op == "schur":
        return B.schur(a)
    if op == "pd_schur":
        return B.pd_schur(a)
    if op == "solve":
        return B.solve(a, b)
    if op == "trisolve":
        if p["form"] == "":
            return B.triangular_solve(a, b)
        # A flag that contradicts the matrix is reported, and ignored.
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            res = B.triangular_solve(a, b, lower_a=p["form"] == "lower")
        told = False
        for w in ws:
            told = told or w.category is UserWarning
            warnings.warn_explicit(w.message, w.category, w.filename, w.lineno)
        if told != ((p["form"] == "lower") != isinstance(a, LowerTriangular)):
            raise FlagError("the flag is not checked against the matrix")
        return res
    if op == "cholesky_solve":
        return B.cholesky_solve(a, b)
    if op == "iqf":
        return B.iqf(*xs)
    if op == "iqf_diag":
        return B.iqf_diag(*xs)
    if op == "ratio":
        return B.ratio(a, b)
    if op == "logdet":
        return B.logdet(a)
    if op == "cholesky":
        return B.cholesky(a)
    if op == "root":
        return B.root(a)
    if op == "sample":
        return sample(a, p)
    if op == "cast":
        return B.cast(DT[p["form"]], a)
    if op == "eye":
        return B.eye(a)
    if op in ("one", "zero", "ones", "zeros"):
        return getattr(B, op)(a)
    if op == "fill_diag":
        return B.fill_diag(a, p["n"])
    if op in ("shape", "shape_batch", "shape_matrix"):
        f = {"shape": B.shape, "shape_batch": B.shape_batch, "shape_matrix": B.shape_matrix}[op]
        return np.array([int(d) for d in f(a)], dtype=int)
    if op in ("shape_broadcast", "shape_batch_broadcast", "shape_matrix_broadcast"):
        return np.array([int(d) for d in getattr(B, op)(*xs)], dtype=int)
    if op == "shape_matrix_of":
        return np.array([int(d) for d in B.shape_matrix(*xs)], dtype=int)
    if op in ("shape_expand", "shape_equal"):  # Shapes by themselves, of whatever form.
        f = expand_and_broadcast if op == "shape_expand" else broadcast
        forms = (tuple, list, lambda s: Shape(*s))
        return np.array([int(d) for d in f(*[forms[(len(xs) + i) % 3](B.shape(x)) for i, x in enumerate(xs)])], dtype=int)
    if op == "shape_compatible":
        return np.array(int(compatible(tuple(B.shape(a)), tuple(B.shape(b)))))
    if op in ("shape_batch_at", "shape_matrix_at"):
        f = B.shape_batch if op == "shape_batch_at" else B.shape_matrix
        r = f(a, *p["idx"])
        return np.array([int(d) for d in r], dtype=int) if isinstance(r, (tuple, list)) or type(r).__name__ == "Shape" else np.array(int(r))
    if op == "mkLR":
        f = p["form"]
        if f == "l":
            return LowRank(a)
        if f == "lr":
            return LowRank(a, b)
        return LowRank(a, middle=b) if f == "lm" else LowRank(a, b, middle=xs[2])
    if op == "mkWb":
        return Woodbury(a, b)
    if op == "mkKr":
        return Kronecker(a, b)
    if op == "mkTB":
        if all(n == 1 for n in p["sh"]):
            return TiledBlocks(*xs, axis=p["ax"])
        if len(xs) == 1:
            return TiledBlocks(a, p["sh"][0], axis=p["ax"])
        return TiledBlocks(*zip(xs, p["sh"]), axis=p["ax"])
    if op in ("mkLT", "mkUT", "mkDiag", "mkDense"):
        return {"mkLT": LowerTriangular, "mkUT": UpperTriangular, "mkDiag": Diagonal, "mkDense": Dense}[op](a)
    if op == "mkConst":
        return Constant(a, *p["sh"])
    if op == "mkZero":
        return Zero(B.dtype(a), *p["sh"])
    if op == "describe":
        return describe(a)
    if op == "isabstract":
        arrays = [x for x in leaves(a) if not isinstance(x, tuple)]
        return np.array(int(bool(B.isabstract(a)) != any(type(x).__name__.endswith("Tracer") for x in arrays)))
    if op == "uprank":
        return B.uprank(a) if p["n"] == 2 else B.uprank(a, p["n"])
    if op == "rank":
        return np.array(int(B.rank(a)))
    raise ValueError(op)


# By which power of two the result of an operation is multiplied when the operands are multiplied by 2 ** ks[i].
SAME = {"add", "sub", "concat", "block", "block_diag"}
ONE = {"neg", "abs", "sum", "mean", "trace", "diag", "diag_extract", "take", "submat", "index", "reshape", "flatten",
       "squeeze", "tr", "T", "broadcast_to", "broadcast_batch_to", "tile", "dense", "to_numpy", "fill_diag", "cast",
       "cholesky"}
REGULARISED = {"cholesky", "pd_inv", "pd_schur", "iqf", "iqf_diag", "ratio"}
DEGREES = {
    **{op: (lambda p, ks: ks[0]) for op in SAME | ONE},
    **{op: (lambda p, ks: sum(ks)) for op in ("mul", "matmul", "mm3", "matmul_diag", "kron")},
    "div": lambda p, ks: ks[0] - ks[1],
    "power": lambda p, ks: p["n"] * ks[0],
    "sqrt": lambda p, ks: ks[0] // 2,
    "inv": lambda p, ks: -ks[0],
    "pd_inv": lambda p, ks: -ks[0],
    "schur": lambda p, ks: -ks[0],
    "pd_schur": lambda p, ks: -ks[0],
    "solve": lambda p, ks: ks[1] - ks[0],
    "trisolve": lambda p, ks: ks[1] - ks[0],
    "cholesky_solve": lambda p, ks: ks[1] - 2 * ks[0],
    "iqf": lambda p, ks: ks[1] + ks[-1] - ks[0],
    "iqf_diag": lambda p, ks: ks[1] + ks[-1] - ks[0],
    "ratio": lambda p, ks: ks[0] - ks[1],
}


def value(op, res):
    """The array through which a result is judged."""
    if op in ("cholesky", "sample"):
        return gram(res)
    if op == "root":
        r = quiet_dense(res)
        # The square root is symmetric, with non-negative eigenvalues.
        ok = r.ndim >= 2 and np.allclose(r, np.swapaxes(r, -1, -2), atol=1e-8)
        if ok and r.size and np.all(np.isfinite(r)):
            ok = bool(np.all(np.linalg.eigvalsh(r) >= -1e-7))
        return gram(res) if ok else np.array([np.nan])
    if op == "logdet":
        return np.exp(quiet_dense(res))
    return quiet_dense(res)
