"""Write properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = "matrix/ops/"


def o(*names):
    return [OPS + n + ".py" for n in names]


def prop(id, title, statement, over, quant, tests, files, mech, state=None, note=None, level_note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = ["return values, raised errors and warnings of the public functions and operators"]
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
            "why_tests_cant": tests, "anchors": a}


KINDS = "zero, constant, diagonal, lower- and upper-triangular, dense, low-rank, Woodbury and Kronecker matrices and tiles of blocks"
SAMPLE = "The tests compare a handful of fixed fixtures (6x6 matrices, random dense entries, one or two batches) with the dense computation; "

PROPS = [
    prop("C01", "A matrix denotes one dense array, determined by what it was built from",
         "Every structured matrix (" + KINDS + ") stands for exactly one dense array, determined by the parts it was constructed "
         "from. Converting it to a dense array or a NumPy array, at any time and any number of times, yields precisely that array, of the right shape.",
         ["inputs", "histories"],
         "all constructor arguments (any sizes, batches, nesting of matrices within matrices, default and explicit factors) and every point in a history of operations",
         SAMPLE + "nesting, broadcasting between parts and conversions after other operations are not enumerated.",
         o("dense", "to_numpy") + ["matrix/constant.py", "matrix/diagonal.py", "matrix/kronecker.py", "matrix/lowrank.py", "matrix/matrix.py", "matrix/tiledblocks.py", "matrix/triangular.py", "matrix/woodbury.py"],
         [("conversion to dense, one method per type", "matrix/ops/dense.py")],
         [("dense", "dense version, once computed", "attribute of structured matrices")]),
    prop("C02", "Sums, differences and negations equal the dense computation",
         "Adding or subtracting any two matrices, arrays or numbers whose shapes broadcast, and negating any matrix, returns (without error) a matrix whose dense value is the "
         "sum, difference or negation of the dense values of the operands. This holds for every combination of matrix types, operand order and batch shapes.",
         ["inputs"], "all pairs of operand types, nested structures, sizes, values (including cancelling, repeated and zero entries) and broadcasting batches",
         SAMPLE + "special values that change the control flow (cancelling low-rank sums, zero scalars, aliased factors) and batches that broadcast against each other are hardly sampled.",
         o("add", "subtract", "negative") + ["matrix/ops/algorithms/align.py", "matrix/promote.py"],
         [("addition by pairs of types", "matrix/ops/add.py"), ("alignment of low-rank factors", "matrix/ops/algorithms/align.py")]),
    prop("C03", "Element-wise products and quotients equal the dense computation",
         "Multiplying two matrices, arrays or numbers element-wise, or dividing one by another, returns (without error) a matrix whose dense value is the element-wise product or quotient of the dense values. "
         "This holds for every combination of matrix types, operand order and broadcasting batch shapes.",
         ["inputs"], "all pairs of operand types, nested structures, sizes, values (including zeros and negative numbers) and broadcasting batches",
         SAMPLE + "products of structures are checked for single shapes and values.",
         o("multiply", "divide"), [("multiplication by pairs of types", "matrix/ops/multiply.py"), ("division through multiplication", "matrix/ops/divide.py")]),
    prop("C04", "Matrix products equal the dense computation, transposed or not",
         "The matrix product of two or three matrices, each optionally transposed, the diagonal of a product, and the Kronecker product return (without error) a value equal to the one computed from the dense values of the operands, "
         "for every combination of matrix types, transposition flags and broadcasting batch shapes.",
         ["inputs"], "all pairs and triples of operand types, transposition flags, non-square sizes and batches",
         SAMPLE + "combinations of transposition flags with rectangular, batched or nested operands are sampled sparsely.",
         o("matmul", "matmul_diag", "kron", "transpose"),
         [("multiplication by pairs of types", "matrix/ops/matmul.py"), ("diagonal of a product", "matrix/ops/matmul_diag.py")]),
    prop("C05", "Reductions equal the reductions of the dense matrix",
         "Sum and mean over any axis (positive or negative, matrix or batch axis, or all), the trace and the diagonal of any matrix equal those of its dense value.",
         ["inputs"], "all matrix types, nested structures, rectangular sizes, batches and axes",
         SAMPLE + "batch axes and non-square or nested operands are reached for few types.",
         o("sum", "mean", "trace", "diag", "diag_extract"), [("sums by type", "matrix/ops/sum.py"), ("diagonals by type", "matrix/ops/diag.py")]),
    prop("C06", "Element-wise functions and matrices built alike equal the dense computation",
         "Absolute value, powers (also zeroth and negative ones), square roots, the test for not-a-number, conversion to another data type and negation act entry by entry on the dense value, whatever the type of the matrix. "
         "Identity, all-ones and all-zeros matrices built after the example of a matrix have its shape and the right entries.",
         ["inputs"], "all matrix types, nested structures, sizes, batches and values (including zero, negative and not-a-number entries)",
         SAMPLE + "not-a-number entries, exponents and batches are sampled for single cases.",
         o("abs", "power", "sqrt", "isnan", "cast", "eye", "one", "ones", "zero", "zeros", "fill_diag", "negative"),
         [("one method per type", "matrix/ops/power.py")]),
    prop("C07", "Selecting, reshaping, transposing and broadcasting equal the dense computation",
         "Taking rows or columns, submatrices, indexing, reshaping, flattening, squeezing, transposing, and broadcasting a matrix or its batch yield what the same operation yields on its dense value, "
         "for index lists with negative, repeated or reordered positions and for boolean masks in any form.",
         ["inputs"], "all matrix types, sizes, batches, axes, index lists (negative, repeated, reordered, empty), masks (lists, tuples, arrays) and target shapes",
         SAMPLE + "one or two index lists and masks are tried per type.",
         o("take", "submatrix", "reshape", "squeeze", "transpose", "broadcast_to", "broadcast_batch_to") + ["matrix/matrix.py"],
         [("selection by type", "matrix/ops/take.py"), ("principal submatrices", "matrix/ops/submatrix.py")]),
    prop("C08", "Assembled matrices equal the assembly of the dense parts",
         "Concatenating, tiling, stacking into blocks or along a diagonal, and filling a diagonal yields the matrix that the same assembly of the dense values yields, whatever the types of the parts.",
         ["inputs"], "all numbers and types of parts, layouts, sizes, axes and broadcasting batches",
         SAMPLE + "layouts are few, of equally sized parts.",
         o("concat", "tile", "block", "block_diag", "fill_diag") + ["matrix/tiledblocks.py"],
         [("blocks", "matrix/ops/block.py"), ("block-diagonal matrices", "matrix/ops/block_diag.py"), ("concatenation of tiles", "matrix/ops/concat.py")]),
    prop("C09", "Inverses and solutions of linear systems are exact",
         "For every invertible matrix, its inverse, the solution of a linear system with it (general, triangular, or given a Cholesky factor) and the Schur complement of a Woodbury matrix equal the ones computed from dense values, "
         "whichever structure the matrix and the right-hand side have.",
         ["inputs", "histories"], "all invertible matrices of every type, all types of right-hand sides, sizes, batches, and any cached intermediate results",
         SAMPLE + "right-hand sides are dense or diagonal, middles of low-rank parts mostly default.",
         o("inv", "solve", "triangular_solve", "cholesky_solve", "schur"),
         [("matrix inversion lemma", "matrix/ops/inv.py"), ("Schur complement", "matrix/ops/schur.py")],
         [("schur", "Schur complement, once computed", "attribute of Woodbury matrices")]),
    prop("C10", "Functionals of positive-definite matrices equal the dense computation",
         "For every positive-definite matrix, inverse quadratic forms (full and diagonal only), the trace of a ratio of two such matrices, the positive-definite inverse and Schur complement and the log-determinant equal the values computed from dense matrices. "
         "This holds regardless of the structure of the matrix and of the vectors, and of whether a factorisation has been computed before.",
         ["inputs", "histories"], "all positive-definite matrices of every type, all types of vectors or matrices in the quadratic form, sizes and batches",
         SAMPLE + "two-argument forms with differing structures and batches are not enumerated.",
         o("iqf", "iqf_diag", "ratio", "pd_inv", "pd_schur", "logdet"),
         [("quadratic forms by type", "matrix/ops/iqf.py"), ("log-determinants by type", "matrix/ops/logdet.py")]),
    prop("C11", "Cholesky factors, roots and samples reproduce the matrix",
         "For every positive-definite matrix, multiplying the computed Cholesky factor with its transpose gives back the matrix, the computed root is symmetric and non-negative and squares to the matrix, and samples are a linear map of standard noise whose covariance is exactly the matrix. "
         "This holds for every structure, first time and again.",
         ["inputs", "histories"], "all positive-(semi)definite matrices of every type for which these are provided, batches, and repeated calls",
         SAMPLE + "samples are only checked to have the right shape or an approximate covariance.",
         o("cholesky", "root", "sample"), [("factors by type", "matrix/ops/cholesky.py"), ("samples", "matrix/ops/sample.py")],
         [("cholesky", "Cholesky factor, once computed", "attribute of matrices")]),
    prop("C12", "Reported shapes and ranks are those of the dense value",
         "The shape, batch shape, matrix shape and rank that any matrix reports, however it was obtained, are exactly those of its dense value, and those of the same operation on dense arrays.",
         ["inputs", "programs"], "all results of all operations, nested structures and broadcasting batches",
         "Shapes are asserted for constructed fixtures; shapes of results are only seen through their dense values.",
         o("shape", "shape_batch", "shape_matrix", "rank", "uprank") + ["matrix/constant.py", "matrix/tiledblocks.py"],
         [("shapes by type", "matrix/ops/shape.py"), ("batch shapes by type", "matrix/ops/shape_batch.py")]),
    prop("C13", "Operands that do not fit together are rejected",
         "An operation on operands whose shapes, batches or axes do not fit, for which the dense computation is undefined, raises an error, whatever the structure of the operands. It never returns a matrix.",
         ["inputs"], "all pairs of operand types with clashing matrix shapes, inner dimensions or batches, out-of-range axes and positions, and ill-fitting target shapes",
         "The tests assert rejections for a few pairs of types (zero, constant, diagonal).",
         o("add", "multiply", "matmul", "sum", "take", "block_diag", "concat", "broadcast_to") + ["matrix/shape.py"],
         [("assertions of compatible shapes", "matrix/shape.py")]),
    prop("C14", "Structure that an operation preserves is preserved",
         "Where the algebra of structured matrices predicts the structure of a result (sums of diagonals, products with zeros, low-rank products, Woodbury inverses, Kronecker rules, transposes, selections, block assemblies, factors), "
         "the result has that structure, and a low-rank result declares no higher rank than predicted. A dense matrix is never returned in place of a predicted structured one.",
         ["inputs", "programs"], "all pairs of operand types, nested structures, sizes and batches",
         "Types of results are asserted for one fixture per pair of types.",
         o("add", "multiply", "matmul", "inv", "transpose", "take", "submatrix", "block", "block_diag", "diag", "cholesky", "kron"),
         [("dispatch by pairs of types", "matrix/ops/*.py")]),
    prop("C15", "A matrix never claims structure that it does not have",
         "A result that calls itself triangular has zeros on the other side, one that calls itself low-rank has factors of the declared rank which fit, one that calls itself diagonal plus low-rank or a Kronecker product consists of such parts, "
         "and in every case the parts of a result multiply out to the dense value it converts to.",
         ["inputs", "programs"], "all results of all operations on all operand types, nested structures, sizes and batches",
         "The tests look at dense values only, so that stray entries outside of a triangle, or parts that disagree with the cached dense value, go unseen.",
         ["matrix/triangular.py", "matrix/lowrank.py", "matrix/woodbury.py", "matrix/kronecker.py", "matrix/tiledblocks.py"] + o("add", "multiply", "matmul", "take"),
         [("constructors", "matrix/*.py")]),
    prop("C16", "Structure is given up if and only if a warning says so",
         "An operation that has to convert a structured matrix to a dense one issues a warning of the dedicated category, and an operation that does not give up structure issues none. Users can rely on the absence of the warning to know that structure was exploited.",
         ["inputs", "programs"], "all operations on all operand types, nested structures, sizes and batches",
         "Warnings are asserted for selected calls; other calls run with whatever warnings they issue or do not issue.",
         ["matrix/util.py"] + o("add", "multiply", "matmul", "power", "sum", "inv", "logdet", "take", "reshape", "cholesky"),
         [("warning on conversion", "matrix/util.py")]),
    prop("C17", "Operations never change their operands, and results do not depend on the past",
         "No operation changes the value, structure or parts of any existing matrix or array, also when operands are shared or used twice. "
         "The result of an operation is a function of its operands alone: it is the same whatever was computed with (and cached in) these objects before, and whatever is cached is the quantity it stands for.",
         ["histories", "programs"], "all histories of operations over a store of shared matrices",
         "The tests build fresh fixtures per test and call one operation at a time; caches are checked by identity of repeated calls.",
         o("dense", "cholesky", "schur", "inv", "iqf", "logdet", "sample") + ["matrix/lowrank.py", "matrix/woodbury.py"],
         [("caches filled on first use", "matrix/ops/dense.py, matrix/ops/cholesky.py, matrix/ops/schur.py")],
         [("dense, cholesky, schur", "results remembered on the object", "attributes of matrices")]),
    prop("C18", "Data types follow from those of the operands",
         "An operation on matrices of one floating-point precision returns a result of that precision, and mixing precisions returns the higher one, just as for dense arrays; sums, products and selections of integers are integers; the data type that a matrix reports is that of its dense value.",
         ["inputs"], "all operations on all operand types in single, double and mixed precision",
         "The tests run in double precision.",
         o("dtype", "cast", "one", "ones", "zeros", "eye") + ["matrix/constant.py", "matrix/lowrank.py"],
         [("data types by type", "matrix/ops/dtype.py")]),
    prop("C19", "An operation on a batch is the batch of the operations",
         "Every operation on batches of matrices computes, for every element of the broadcast batch, what the operation yields on the corresponding individual matrices, and the batch shape of the result is the broadcast of those of the operands, also when parts of one matrix have differing batch shapes.",
         ["inputs"], "all operations, operand types, and batch shapes up to rank three, including singleton dimensions and operands or parts without batch",
         "The tests use one batch shape, mostly identical for all operands and parts.",
         o("add", "multiply", "matmul", "inv", "solve", "iqf", "logdet", "cholesky", "take", "sum", "block_diag", "shape_batch", "shape_batch_broadcast") + ["matrix/ops/algorithms/align.py"],
         [("broadcasting of batches", "matrix/shape.py")]),
    prop("C20", "Results do not depend on the array backend",
         "Every operation behaves identically for matrices made of NumPy arrays and matrices made of JAX arrays: same value, shape, structure, data type, warnings and errors (out-of-range positions aside, for which JAX defines a result).",
         ["configurations", "inputs"], "all operations on all operand types with JAX arrays",
         "The tests run on NumPy, except for single tests under JAX.",
         o("add", "multiply", "matmul", "take", "sample", "fill_diag", "cast") + ["matrix/promote.py"],
         [("backend-independent primitives", "matrix/ops/*.py")]),
    prop("C21", "Numbers, arrays and matrices mix freely in operations and operators",
         "A number, vector or array in place of a matrix in a sum, difference, product, quotient or matrix product, on either side, through functions or Python operators, is treated as the constant or dense matrix it stands for, and the result has the value and structure that follows.",
         ["inputs"], "all operand types combined with Python numbers, scalars, vectors and arrays, on either side, batched or not, as functions and operators",
         SAMPLE + "numbers are 0, 1 or 5 and arrays are square.",
         ["matrix/promote.py", "matrix/matrix.py"] + o("add", "multiply", "matmul", "subtract", "divide"),
         [("promotion of numbers and arrays", "matrix/promote.py"), ("operators", "matrix/matrix.py")]),
    prop("C22", "Compiled computations equal interpreted ones",
         "A computation whose control flow has been recorded (with a control-flow cache) can be compiled, replaying that control flow: every matrix operation on abstract arrays then gives the value, structure and warnings that it gives on concrete arrays, "
         "however many recorded decisions the computation contains, and whether a matrix is abstract is determined correctly.",
         ["programs", "inputs", "configurations"], "all sequences of operations on all operand types, compiled with JAX after recording",
         "One computation (a product of a low-rank update) is compiled in the tests.",
         o("add", "take", "isabstract") + ["matrix/ops/algorithms/align.py"],
         [("recorded outcomes", "B.control_flow in matrix/ops/algorithms/align.py and matrix/ops/add.py")]),
    prop("C23", "Matrices can be built from parts exactly if the parts fit",
         "Constructing a matrix from given parts (arrays or other matrices, shared or not, with default or explicit factors) yields a matrix made up of precisely these parts, with the dense value and shape that follow from them; "
         "parts that cannot make up such a matrix (arrays of too low rank, factors whose dimensions differ, something else than a diagonal and a low-rank matrix in a sum of these) are rejected on construction.",
         ["inputs", "programs"], "all combinations of arrays and matrices as parts, sizes, batches, sharing of parts, and numbers of repetitions",
         "The tests construct one instance per type and check a handful of rejections.",
         ["matrix/constant.py", "matrix/diagonal.py", "matrix/kronecker.py", "matrix/lowrank.py", "matrix/matrix.py", "matrix/tiledblocks.py", "matrix/triangular.py", "matrix/woodbury.py", "matrix/shape.py"],
         [("assertions in constructors", "matrix/*.py")]),
    prop("C24", "Shapes of several operands and descriptions are right",
         "Broadcast shapes, batch shapes and matrix shapes of any number of matrices, arrays and numbers, as well as single components of shapes, are those of the dense values under the usual rules of broadcasting, and shapes that do not broadcast are rejected. "
         "The description of a matrix states its batch shape, shape, data type and rank.",
         ["inputs"], "all numbers and types of operands, sizes, batches and positions",
         "The tests take shapes of a few fixtures and check that descriptions look as expected for one shape each.",
         o("shape", "shape_batch", "shape_matrix", "shape_broadcast", "shape_batch_broadcast", "shape_matrix_broadcast", "rank", "uprank", "isabstract") + ["matrix/shape.py", "matrix/matrix.py"],
         [("broadcasting of shapes", "matrix/shape.py")]),
]

TECH = "TLA+ specification; TLC-generated programs replayed on the library, recorded traces judged by TLC"
NOTE = ("TLC generates programs from the specification, the real library runs them, and TLC judges every recorded call against the "
        "specified value, structure, warnings and data types, exactly in rational arithmetic. Bounded: small sizes and batches, "
        "seeded enumeration of operands; trusts the projection of objects to terms (harness/lib.py).")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
               "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "technique": TECH,
               "level": "model_checking", "level_note": NOTE} for p in PROPS]
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": []},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
