"""What programs to generate (see spec/Gen.tla)."""


KINDS2 = ("Zero", "Dense", "Diag", "Const", "LT", "UT", "LR", "Wb", "Kr", "TB", "Arr", "Num", "Sc", "Vec")


def prof(name, ops, follow=None, len=1, rej=False, prec=("f8", "f8", "f4", "mix"), batch="any", k2=KINDS2, share=False, empty=False, big=0, script=()):
    return {"name": name, "ops": list(ops), "follow": list(follow or ops), "len": len, "rej": rej, "prec": list(prec),
            "batch": batch, "k2": list(k2), "share": share, "empty": empty, "big": int(big), "script": [{"on": on, "ops": list(o)} for on, o in script]}


F8 = ("f8",)
FILL = ["inv", "schur", "dense", "cholesky", "iqf", "logdet", "solve", "pd_inv", "iqf_diag", "pd_schur", "inv", "root"]
MK = ["mkLR", "mkWb", "mkKr", "mkTB", "mkLT", "mkUT", "mkDiag", "mkDense", "mkConst", "mkZero"]
SHAPES = ["shape_expand", "shape_equal", "shape_compatible", "shape_broadcast", "shape_batch_broadcast", "shape_matrix_broadcast", "shape_matrix_of", "shape_batch_at",
          "shape_matrix_at"]
ALLFOLLOW = ("add", "mul", "matmul", "neg", "again", "dense", "tr", "sum", "take", "diag", "sub")
PROFILES = {p["name"]: p for p in [
    prof("add", ["add", "sub", "add", "neg"], ["add", "mul", "matmul", "neg", "again", "dense"], 3),
    prof("mul", ["mul", "mul", "div"], ["add", "mul", "matmul", "neg", "again", "dense"], 3),
    prof("matmul", ["matmul", "matmul", "mm3", "matmul_diag", "kron"], ["matmul", "add", "tr", "again", "dense"], 2),
    prof("reduce", ["sum", "mean", "trace", "diag", "diag_extract", "sum"], ["sum", "mean", "add", "again", "dense"], 2),
    prof("unary", ["abs", "power", "sqrt", "isnan", "neg"], ["abs", "power", "again", "add", "dense"], 2),
    prof("select", ["take", "submat", "index", "reshape", "flatten", "squeeze", "take"],
         ["take", "submat", "index", "again", "add", "dense"], 2),
    prof("trans", ["tr", "T", "broadcast_to", "broadcast_batch_to"], ["tr", "matmul", "add", "take", "again"], 2),
    prof("assemble", ["concat", "tile", "block", "block_diag", "fill_diag", "block_diag", "concat", "block"],
         ["tile", "concat", "block_diag", "block", "again", "add"], 2),
    prof("linalg", ["inv", "solve", "schur", "trisolve", "cholesky_solve"], ["matmul", "solve", "again", "dense"], 2, prec=("f8", "f8", "f8", "f4")),
    prof("pd", ["iqf", "iqf_diag", "ratio", "pd_inv", "pd_schur", "logdet"],
         ["again", "iqf", "iqf_diag", "logdet", "dense"], 2, prec=("f8", "f8", "f8", "f4")),
    prof("root", ["cholesky", "root", "sample"], ["again", "cholesky", "dense", "root"], 2, prec=("f8", "f8", "f8", "f4")),
    prof("query", ["dense", "to_numpy", "shape", "shape_batch", "shape_matrix", "rank", "eye", "one", "zero", "ones", "zeros", "cast",
                   "describe", "uprank", "isabstract"],
         ["dense", "shape", "again", "ones", "zeros", "cast", "describe", "isabstract", "add", "mul"], 2),
    prof("reject", ["add", "sub", "mul", "div", "matmul", "mm3", "matmul_diag", "kron", "sum", "mean", "take", "reshape",
                    "broadcast_to", "broadcast_batch_to", "block_diag", "concat", "matmul", "mm3", "submat", "uprank", "tile", "take", "cholesky", "root", "eye", "broadcast_to", "broadcast_batch_to"], None, 1, rej=True),
    prof("jrej", ["add", "sub", "mul", "div", "matmul", "mm3", "matmul_diag", "sum", "mean", "reshape", "broadcast_to",
                  "broadcast_batch_to", "block_diag", "concat", "solve", "iqf", "mkLR", "mkWb", "shape_broadcast"], None, 1, rej=True),
    prof("rejlin", ["solve", "trisolve", "cholesky_solve", "iqf", "iqf_diag"], None, 1, rej=True),
    prof("rejmk", MK[:8] + ["mkConst", "mkZero", "mkLR", "mkTB"], None, 1, rej=True),
    prof("rejshape", [s for s in SHAPES if s != "shape_compatible"], None, 1, rej=True),
    prof("mk", MK + ["mkLR", "mkTB"], ["mkLR", "mkKr", "mkTB", "add", "mul", "dense", "matmul", "take", "sum", "again", "diag", "trace", "submat", "T", "mkLR", "mkKr",
          "matmul_diag", "block_diag", "tile", "neg", "mean", "abs"], 3),
    prof("share", ["mkLR", "mkLR", "mkKr", "mkLR", "mkWb"],
         ["mkLR", "mkLR", "mkLR", "add", "sub", "add", "mul", "matmul", "mkWb", "mkKr", "dense", "again"], 6, share=True,
         prec=F8),
    prof("shapes", SHAPES, None, 1),
    prof("shapes0", SHAPES, None, 1, empty=True),
    prof("rejshape0", [s for s in SHAPES if s != "shape_compatible"], None, 1, rej=True, empty=True),
    prof("shared", ["mkKr", "mkLR", "mkKr", "mkWb"],
         ["neg", "abs", "power", "tr", "T", "take", "sum", "mean", "trace", "diag", "submat", "cast", "dense", "isnan", "mkKr", "again"], 3,
         share=True),
    prof("chain", ["add", "mul", "matmul", "kron", "take", "tr"],
         ["add", "mul", "matmul", "neg", "again", "dense", "tr", "sum", "take", "diag", "sub", "submat", "block_diag",
          "concat", "cholesky", "inv", "matmul_diag"], 6),
    prof("cache", ["dense", "cholesky", "iqf", "inv", "logdet", "schur", "pd_inv", "sample", "solve", "iqf_diag"],
         ["again", "again", "dense", "cholesky", "sample", "iqf", "inv", "logdet", "pd_inv", "add", "mul", "matmul", "again", "take", "neg", "cast"], 6,
         prec=F8),
    # A matrix is used, another is made from it, and that one is used.
    prof("derive", FILL, FILL + ["again", "dense", "add", "matmul"], 5, prec=F8, k2=("Num", "Sc", "Diag", "LR", "Zero", "Const", "Wb"),
         script=[("first", ["tr", "T", "neg", "mul", "cast", "tr", "sub", "add", "div", "submat", "broadcast_batch_to", "mul",
                            "abs", "take", "power", "inv", "pd_inv", "mkKr", "mkLR", "mkTB", "matmul", "kron", "concat"]),
                 ("last", FILL), ("first", FILL + ["again"])]),
    prof("badd", ["add", "sub", "mul", "matmul", "matmul_diag", "kron", "mm3"], None, 1, batch="full"),
    prof("bred", ["sum", "take", "diag", "trace", "block_diag", "block", "submat", "mean", "cholesky", "root", "sample", "concat", "tile"], None, 1, batch="full", prec=F8),
    prof("blin", ["inv", "solve", "iqf", "iqf_diag", "ratio", "logdet", "pd_inv", "trisolve", "cholesky_solve", "schur"], None, 1, batch="full", prec=F8),
    prof("dense", ["dense", "to_numpy"], ["dense", "add", "matmul", "kron", "tr", "to_numpy"], 3),
    prof("dt_add", ["add", "sub", "mul", "div"], None, 1, prec=("f4", "f4", "mix", "mix", "f8")),
    prof("dt_matmul", ["matmul", "matmul_diag", "kron", "mm3"], None, 1, prec=("f4", "f4", "mix", "mix", "f8")),
    prof("dt_misc", ["sum", "mean", "trace", "diag", "abs", "power", "sqrt", "take", "submat", "tr", "broadcast_to", "tile",
                     "concat", "block", "block_diag", "inv", "solve", "schur", "dense", "eye", "one", "zero", "ones",
                     "zeros", "cast", "neg", "fill_diag", "reshape", "squeeze", "cholesky", "root", "iqf"],
         None, 1, prec=("f4", "f4", "mix", "f8")),
    prof("dt_cache", ["dense", "cholesky", "add", "mul", "matmul", "inv", "schur", "iqf", "kron"],
         ["cast", "cast", "dense", "cholesky", "again", "add", "mul", "matmul", "take", "tr", "neg", "T"], 4,
         prec=("f8", "f8", "f4", "mix")),
    prof("jx", ["add", "sub", "mul", "div", "matmul", "mm3", "matmul_diag", "kron", "sum", "mean", "take", "submat",
                "diag", "trace", "neg", "abs", "power", "tr", "broadcast_to", "broadcast_batch_to", "concat", "block",
                "block_diag", "tile", "inv", "solve", "schur", "iqf", "iqf_diag", "logdet", "cholesky", "root", "pd_inv",
                "sample", "dense", "cast", "reshape", "fill_diag"],
         None, 1, prec=("f8",)),
    prof("ints", ["add", "sub", "mul", "matmul", "mm3", "matmul_diag", "kron", "sum", "mean", "trace", "diag", "take", "submat",
                  "tr", "neg", "abs", "dense", "concat", "block", "block_diag", "tile", "broadcast_to", "inv", "solve", "iqf",
                  "cholesky", "logdet", "ones", "zeros", "eye", "one", "zero", "fill_diag", "cast", "root", "div"],
         ["add", "mul", "matmul", "sum", "dense", "again"], 2, prec=("i8",)),
    prof("jit", ["add", "sub", "mul", "add", "matmul", "mm3", "matmul_diag", "kron", "sum", "mean", "take", "submat",
                 "diag", "trace", "neg", "abs", "power", "tr", "broadcast_to", "concat", "block", "add", "sub",
                 "block_diag", "tile", "inv", "solve", "schur", "iqf", "iqf_diag", "logdet", "cholesky", "root", "pd_inv",
                 "dense", "cast", "reshape", "fill_diag", "ratio", "trisolve", "div", "isabstract"],
         ["add", "sub", "mul", "matmul", "add", "sub", "neg", "sum", "take", "again", "dense", "isabstract"], 3, prec=F8),
    prof("empty", ["add", "sub", "mul", "div", "matmul", "mm3", "matmul_diag", "kron", "sum", "take", "submat",
                   "diag", "trace", "neg", "abs", "power", "tr", "broadcast_to", "broadcast_batch_to", "concat", "block",
                   "block_diag", "tile", "dense", "cast", "reshape", "fill_diag", "ones", "zeros", "eye", "shape",
                   "mkLR", "mkKr", "mkTB", "mkDiag", "mkConst", "isnan", "to_numpy", "describe", "shape_broadcast",
                   "inv", "solve", "iqf", "iqf_diag", "logdet", "cholesky", "schur", "root", "index", "flatten", "sub"],
         ["add", "mul", "matmul", "sum", "dense", "again", "tr", "take"], 2, prec=F8, empty=True),
    prof("big_ew", ["add", "mul", "sub", "add", "mul"], ["add", "mul", "matmul", "sum", "again", "dense"], 2, batch="one", big=True),
    prof("big_matmul", ["matmul", "mm3", "matmul_diag", "kron", "matmul"], ["matmul", "again", "add", "dense"], 2, batch="one", big=True),
    prof("big_reduce", ["sum", "mean", "trace", "diag", "sum", "dense", "cast"], ["sum", "again", "dense"], 2, batch="one", big=True),
    prof("big_select", ["take", "submat", "index", "reshape", "tr", "broadcast_to", "flatten", "take", "neg", "abs", "power"],
         ["take", "submat", "again", "dense", "add"], 2, batch="one", big=True),
    prof("big_assemble", ["concat", "block", "block_diag", "tile", "fill_diag", "block_diag"], ["block_diag", "tile", "again"], 2,
         batch="one", big=True),
    prof("big_lin", ["inv", "solve", "schur", "cholesky", "iqf", "logdet", "root", "iqf_diag", "trisolve", "pd_inv", "sample", "ratio"], None, 1,
         batch="one", big=True, prec=F8),
    prof("huge", ["add", "mul", "matmul", "sub", "sum", "matmul_diag", "diag", "trace", "take", "mm3", "concat", "block_diag", "tile", "mean",
                  "submat", "neg", "abs", "kron", "broadcast_to", "dense", "power", "reshape"],
         ["add", "mul", "matmul", "sum", "again"], 1, batch="one", big=2),
    prof("promo", ["add", "sub", "mul", "div", "matmul", "matmul", "kron"], None, 1,
         k2=("Arr", "Num", "Sc", "Vec", "Arr", "Num", "Dense", "Diag")),
]}
