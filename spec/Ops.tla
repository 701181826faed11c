--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* Calls.  A call c is [op |-> name, p |-> parameters] applied to a         *)
(* sequence xs of argument terms.                                          *)
(*   Pre(c, xs)    "ok"      the result is defined                          *)
(*                 "reject"  the operands do not fit: must raise            *)
(*                 "free"    nothing is claimed                             *)
(*   Sem(c, xs)    the dense array the call must produce                    *)
(*   Do(c, xs)     the term it does produce, and whether it warns           *)
(* Parameters live in one record shape:                                     *)
(*   ta tb tc (transposes)  ax (axis, 99 = none)  idx (positions)           *)
(*   form (how idx is passed)  sh (a shape)  n (a number)  via (spelling)   *)
(*   lay (layout of blocks: argument numbers by row)                        *)
(***************************************************************************)
EXTENDS Struct

NoAx == 99
P0 == [ta |-> FALSE, tb |-> FALSE, tc |-> FALSE, ax |-> NoAx, idx |-> <<>>, form |-> "",
       sh |-> <<>>, n |-> 0, via |-> "B", lay |-> <<>>]
Call(op) == [op |-> op, p |-> P0]

Elementwise == {"add", "sub", "mul", "div"}
Numeric(t) == Raw(t)

(* Matrix shapes of element-wise operands: equal, or one of them broadcasts. *)
SquareM(t) == MShape(P(t))[1] = MShape(P(t))[2]
Rk(t) == Len(ShapeOf(t))
NegAx(ax, rk) == IF ax = NoAx THEN 0 ELSE IF ax >= 0 THEN ax - rk ELSE ax
PosAx(ax, rk) == IF ax >= 0 THEN ax + 1 ELSE rk + ax + 1
AxOk(ax, rk) == ax = NoAx \/ (-rk <= ax /\ ax < rk)
(* Elements selected by a boolean mask, as 0-based positions. *)
RECURSIVE MaskIdx(_, _)
MaskIdx(m, k) == IF k > Len(m) THEN <<>>
                 ELSE (IF m[k] = 1 THEN <<k - 1>> ELSE <<>>) \o MaskIdx(m, k + 1)
IsMask(p) == p.form \in {"masklist", "masktuple", "maskarray"}
Idx(p, n) == IF IsMask(p) THEN MaskIdx(p.idx, 1)
             ELSE Force([k \in 1..Len(p.idx) |-> IF p.idx[k] < 0 THEN p.idx[k] + n ELSE p.idx[k]])
Deep(p) == p.form \in {"deep", "deepmask"}       \* not a list of positions
IdxOk(p, n) == IF Deep(p) THEN FALSE ELSE IF IsMask(p) THEN Len(p.idx) = n
               ELSE \A k \in 1..Len(p.idx) : -n <= p.idx[k] /\ p.idx[k] < n

PDm(t)  == TPD(Uprank(Den(t)))
InvM(t) == SquareM(t) /\ NonSing(Uprank(Den(t)))
(* Everything an inversion by parts needs to be invertible. *)
RECURSIVE InvParts(_)
InvParts(t) == CASE t.k = "Wb" -> /\ \A k \in 1..Len(t.dg.v.e) : t.dg.v.e[k] # 0
                                  /\ SquareM(t.lr.mid) /\ NonSing(Uprank(Den(t.lr.mid)))
                                  /\ InvM(t)
                 [] t.k = "Kr" -> SquareM(t.l) /\ SquareM(t.r) /\ InvParts(t.l) /\ InvParts(t.r)
                 [] t.k \in {"Zero", "Unsup"} -> FALSE
                 [] OTHER -> InvM(t)
RECURSIVE PdParts(_)
PdParts(t) == CASE t.k = "Wb" -> /\ \A k \in 1..Len(t.dg.v.e) : t.dg.v.e[k] > 0
                                 /\ t.lr.rd /\ PDm(t.lr.mid)
                [] t.k = "Kr" -> SquareM(t.l) /\ SquareM(t.r) /\ PdParts(t.l) /\ PdParts(t.r)
                [] t.k = "LR" -> t.rd /\ PDm(t.mid)
                [] t.k = "Zero" -> SquareM(t)
                [] t.k = "Const" -> t.r = t.q /\ \A k \in 1..Len(t.c.e) : t.c.e[k] >= 0
                [] t.k = "Unsup" -> FALSE
                [] OTHER -> SquareM(t) /\ PDm(t)
PdFull(t) == PdParts(t) /\ SquareM(t) /\ PDm(t)

Mats(xs) == MapSeq(P, xs)
BatchesOk(xs) == BOks(MapSeq(LAMBDA t : BatchOf(P(t)), xs))

(* Element-wise operations that have to expand (broadcast) the matrix shape of a *)
(* structured operand combine structure as if the shapes were equal.  This is a  *)
(* known defect of the library; these calls are set apart.                       *)
Expanded(t, S) == MShape(P(t)) # Last2(S)
Tris == {"LT", "UT"}
MisAdd(t, o, S) ==
    LET x == P(t).k
        y == P(o).k
    IN  /\ Expanded(t, S)
        /\ \/ x = "Diag" /\ y \in {"Diag", "LT", "UT", "Const", "LR", "Wb"}
           \/ x \in Tris /\ (y = x \/ y = "Diag")
           \/ x = "Wb" /\ y \in {"Diag", "Const", "LR", "Wb"}
           \/ x = "LR" /\ y = "Diag"
MisMul(t, o, S) ==
    LET x == P(t).k
        y == P(o).k
    IN  /\ Expanded(t, S)
        /\ \/ x \in {"Diag", "LT", "UT", "Wb"} /\ y # "Zero"
           \/ x \in {"LR", "Kr"} /\ y = "Const"
MisBroadcast(c, xs) ==
    LET a == xs[1]
        b == xs[2]
        S == BShape(ShapeOf(P(a)), ShapeOf(P(b)))
    IN  CASE c.op \in {"add", "sub"} -> MisAdd(a, b, S) \/ MisAdd(b, a, S)
          [] c.op = "mul" -> MisMul(a, b, S) \/ MisMul(b, a, S)
          [] c.op = "div" -> P(b).k = "Const" /\ MisMul(a, b, S)

(* Constructors, applied to objects that exist already. *)
Mk == {"mkLR", "mkWb", "mkKr", "mkTB", "mkLT", "mkUT", "mkDense", "mkDiag", "mkConst", "mkZero"}
MkLR(p, xs) == LET l == xs[1]
                   r == IF p.form \in {"lr", "lrm"} THEN xs[2] ELSE l
                   hasm == p.form \in {"lm", "lrm"}
               IN  [k |-> "LR", l |-> l, r |-> r,
                    mid |-> IF hasm THEN xs[Len(xs)] ELSE Diag(Full(<<MShape(P(l))[2]>>, 1)),
                    rd |-> p.form \in {"l", "lm"}, md |-> ~hasm]
Rank2(t) == Len(ShapeOf(t)) >= 2
FullDiag(m) == TDiagM(TDiagV(m))
MkPre(op, p, xs) ==
    LET a == xs[1]
        b == xs[2]
    IN  CASE op = "mkLR" ->
               IF \E k \in 1..Len(xs) : ~Rank2(xs[k]) THEN "reject"
               ELSE LET t == MkLR(p, xs)
                        fits == /\ MShape(P(t.l))[2] = MShape(P(t.mid))[1]
                                /\ MShape(P(t.r))[2] = MShape(P(t.mid))[2]
                    IN  IF \E k \in 1..Len(xs) : "TB" \in Kinds(xs[k]) THEN "free"
                        ELSE IF ~fits THEN "reject"
                        ELSE IF ~BOks(<<BatchOf(P(t.l)), BatchOf(P(t.r)), BatchOf(P(t.mid))>>) THEN "free"
                        ELSE IF IsUS(MM3(t.l, t.mid, t.r, FALSE, FALSE, TRUE)) THEN "free" ELSE "ok"
          [] op = "mkWb" -> IF a.k # "Diag" \/ b.k # "LR" THEN "reject"
                            ELSE IF ~BOk(ShapeOf(a), ShapeOf(b)) THEN "reject"
                            ELSE IF MShape(a) = MShape(b) /\ "TB" \notin Kinds(b) THEN "ok" ELSE "free"
          [] op = "mkKr" -> IF /\ Rank2(a) /\ Rank2(b) /\ BOk(BatchOf(a), BatchOf(b))
                               /\ "TB" \notin Kinds(a) \cup Kinds(b) THEN "ok" ELSE "free"
          [] op = "mkTB" -> IF \E k \in 1..Len(xs) : ~Rank2(xs[k]) THEN "reject"
                            ELSE LET ss == MapSeq(ShapeOf, xs)
                                     rk == MaxLen(ss)
                                     ax == TBAxis(p.ax, rk) + rk + 1
                                     rest == MapSeq(LAMBDA s : DropAt(PadL(s, rk), ax), ss)
                                     \* matrix dimensions that are not tiled are not broadcasted
                                     mats == {<<IF ax = rk - 1 THEN 0 ELSE ss[k][Len(ss[k]) - 1],
                                                IF ax = rk THEN 0 ELSE ss[k][Len(ss[k])]>> : k \in 1..Len(ss)}
                                 IN  IF /\ 1 <= ax /\ ax <= rk /\ BOks(rest) /\ Cardinality(mats) = 1
                                        /\ \A k \in 1..Len(xs) : "TB" \notin Kinds(xs[k]) THEN "ok" ELSE "free"
          [] op \in {"mkLT", "mkUT"} ->
               IF ~Rank2(a) THEN "reject"
               ELSE IF SquareM(a) /\ TTri(Den(a), op = "mkUT") = Den(a) THEN "ok" ELSE "free"
          [] op = "mkDense" -> "ok"
          [] op = "mkDiag" -> IF Raw(a) THEN (IF Len(ShapeOf(a)) >= 1 THEN "ok" ELSE "reject") ELSE "ok"
          [] op = "mkConst" ->
               IF ~Raw(a) THEN "free" ELSE IF Len(p.sh) < 2 THEN "reject"
               ELSE IF Lead(p.sh) = <<>> \/ BOk(Lead(p.sh), ShapeOf(a)) THEN "ok" ELSE "reject"
          [] op = "mkZero" -> IF Len(p.sh) < 2 THEN "reject" ELSE "ok"
MkTerm(op, p, xs) ==
    LET a == xs[1]
    IN  CASE op = "mkLR" -> MkLR(p, xs)
          [] op = "mkWb" -> Wb(a, xs[2])
          [] op = "mkKr" -> Kr(a, xs[2])
          [] op = "mkTB" -> TB(xs, p.sh, p.ax)
          [] op = "mkLT" -> LT(Den(a))
          [] op = "mkUT" -> UT(Den(a))
          [] op = "mkDense" -> Dense(Uprank(Den(a)))
          [] op = "mkDiag" -> Diag(IF Raw(a) THEN a.m ELSE TDiagV(Den(a)))
          [] op = "mkConst" -> Const(TBroadcast(a.m, BShape(Lead(p.sh), a.m.s)), p.sh[Len(p.sh) - 1], p.sh[Len(p.sh)])
          [] op = "mkZero" -> Zero(p.sh)
MkDo(op, p, xs) ==
    IF op = "mkDiag" /\ ~Raw(xs[1])
    THEN LET r == DiagOp(xs[1]) IN IF IsUS(r) THEN US ELSE W(Diag(r.t.m), r.w)
    ELSE Ok(MkTerm(op, p, xs))

(* Shapes of several operands at a time. *)
ShapeOps == {"shape_expand", "shape_equal", "shape_compatible", "shape_broadcast", "shape_batch_broadcast", "shape_matrix_broadcast", "shape_matrix_of",
             "shape_batch_at", "shape_matrix_at"}
PartShape(op, t) == CASE op \in {"shape_broadcast", "shape_expand", "shape_equal", "shape_compatible"} -> ShapeOf(t)
                      [] op \in {"shape_batch_broadcast", "shape_batch_at"} -> BatchOf(P(t))
                      [] OTHER -> MShape(P(t))
RECURSIVE BFold(_, _)
BFold(ss, k) == IF k = Len(ss) THEN ss[k] ELSE BShape(ss[k], BFold(ss, k + 1))
IVec(s) == [s |-> <<Len(s)>>, d |-> 1, e |-> s]
At(s, i) == IF i < 0 THEN s[Len(s) + i + 1] ELSE s[i + 1]
ShapePre(op, p, xs) ==
    LET ss == Force([k \in 1..Len(xs) |-> PartShape(op, xs[k])])
    IN  IF op \in {"shape_batch_at", "shape_matrix_at"}
        THEN IF \A k \in 1..Len(p.idx) : -Len(ss[1]) <= p.idx[k] /\ p.idx[k] < Len(ss[1]) THEN "ok" ELSE "reject"
        ELSE IF op = "shape_compatible" THEN "ok"
        ELSE IF op = "shape_equal" /\ (\E k \in 2..Len(xs) : Len(ss[k]) # Len(ss[1])) THEN "reject"
        ELSE IF op = "shape_matrix_of" /\ \E k \in 1..Len(xs) : xs[k].k = "Num" THEN "free"   \* taken for an axis
        ELSE IF BOks(ss) THEN "ok" ELSE "reject"
ShapeSem(op, p, xs) ==
    LET ss == Force([k \in 1..Len(xs) |-> PartShape(op, xs[k])])
    IN  IF op = "shape_compatible" THEN Scal(IF BOks(ss) THEN 1 ELSE 0)
        ELSE IF op \in {"shape_batch_at", "shape_matrix_at"}
        THEN LET r == Force([k \in 1..Len(p.idx) |-> At(ss[1], p.idx[k])])
             IN  IF Len(r) = 1 THEN Scal(r[1]) ELSE IVec(r)
        ELSE IVec(BFold(ss, 1))

(* Powers that do not keep zeros zero. *)
RECURSIVE HasZeros(_)
HasZeros(t) == CASE t.k \in {"Zero", "Diag", "LT", "UT"} -> TRUE
                 [] t.k = "Kr" -> HasZeros(t.l) \/ HasZeros(t.r)
                 [] OTHER -> FALSE
RECURSIVE AllSquares(_)
AllSquares(t) == TSquares(Den(t)) /\ (t.k = "Kr" => AllSquares(t.l) /\ AllSquares(t.r))
NoZero(m) == \A k \in 1..Len(m.e) : m.e[k] # 0

(* Right-hand sides that do not fit, in size or in batch. *)
Misfit(a, b) == MShape(P(a))[2] # MShape(P(b))[1] \/ ~BOk(BatchOf(P(a)), BatchOf(P(b)))
LinPre(good, xs) ==
    IF ~good \/ "TB" \in {xs[k].k : k \in 1..Len(xs)} THEN "free"
    ELSE IF \E k \in 2..Len(xs) : Misfit(xs[1], xs[k])
    THEN (IF "Zero" \in {P(xs[k]).k : k \in 1..Len(xs)} THEN "free" ELSE "reject")
    ELSE "ok"
(* Factors of Kronecker products are solved for one by one. *)
KrSolves(a, b) ==
    LET fits(x, y) == /\ x.k \in {"Diag", "LT", "UT"} /\ SquareM(x) /\ InvParts(x) /\ ~Raw(y) /\ y.k # "TB" /\ y.k # "Zero"
                      /\ MShape(P(y))[1] = MShape(x)[2] /\ BOk(BatchOf(x), BatchOf(P(y)))
    IN  fits(a.l, b.l) /\ fits(a.r, b.r) /\ BOk(BatchOf(a), BatchOf(b))
(* Solving for a zero matrix hands back that very matrix. *)
ZeroFits(a, b) == P(b).k = "Zero" => BShape(BatchOf(P(a)), BatchOf(P(b))) = BatchOf(P(b))

Pre(c, xs) ==
    LET p == c.p
        a == xs[1]
        b == xs[2]
        sa == ShapeOf(P(a))
        sb == ShapeOf(P(b))
        rk == Rk(a)
        ew == IF BOk(ShapeOf(P(a)), ShapeOf(P(b))) THEN "ok" ELSE "reject"
        okIf(q) == IF q THEN "ok" ELSE "reject"
        freeIf(q) == IF q THEN "ok" ELSE "free"
    IN
    IF \E k \in 1..Len(xs) : xs[k].k \in {"Unsup", "Irr"} THEN "free"
    \* Products of vectors are not this library's business.
    ELSE IF /\ c.op \in {"matmul", "mm3", "matmul_diag"}
            /\ \E k \in 1..Len(xs) : Raw(xs[k]) /\ Len(xs[k].m.s) < 2
            /\ Cardinality({k \in 1..Len(xs) : Raw(xs[k])}) >= 2 THEN "free"
    ELSE IF /\ c.op \in {"matmul_diag", "block_diag", "block", "concat", "eye", "ones", "zeros",
                          "iqf", "iqf_diag", "solve", "trisolve", "cholesky_solve"}
            /\ \E k \in 1..Len(xs) : Raw(xs[k]) /\ Len(xs[k].m.s) < 2 THEN "free"
    ELSE IF c.op \in Mk THEN MkPre(c.op, p, xs)
    ELSE IF c.op \in ShapeOps THEN ShapePre(c.op, p, xs)
    ELSE IF c.op = "eye" /\ Raw(a) THEN "free"
    ELSE IF /\ c.op \in {"inv", "solve", "trisolve", "cholesky_solve"}
            /\ \A k \in 1..Len(xs) : Raw(xs[k]) THEN "free"
    ELSE
    CASE c.op \in Elementwise ->
           IF Raw(a) /\ Raw(b) THEN "free"
           ELSE IF c.op = "div" /\ ew = "ok" /\ P(b).k = "Const"
                   /\ \E k \in 1..Len(P(b).c.e) : P(b).c.e[k] = 0 THEN "free"
           ELSE IF ew = "ok" /\ MisBroadcast(c, xs) THEN "known"
           ELSE ew
      [] c.op = "matmul" -> okIf(/\ MShTr(P(a), p.ta)[2] = MShTr(P(b), p.tb)[1]
                                 /\ BOk(BatchOf(P(a)), BatchOf(P(b))))
      [] c.op = "mm3" -> okIf(/\ MShTr(P(a), p.ta)[2] = MShTr(P(b), p.tb)[1]
                              /\ MShTr(P(b), p.tb)[2] = MShTr(P(xs[3]), p.tc)[1]
                              /\ BatchesOk(xs))
      [] c.op = "matmul_diag" ->
           IF ~BOk(BatchOf(P(a)), BatchOf(P(b))) THEN "reject"
           ELSE IF MShTr(P(a), p.ta)[2] # MShTr(P(b), p.tb)[1]
           THEN (IF 1 \in {MShTr(P(a), p.ta)[k] : k \in 1..2} \cup {MShTr(P(b), p.tb)[k] : k \in 1..2}
                 THEN "free" ELSE "reject")
           ELSE freeIf(MShTr(P(a), p.ta)[1] = MShTr(P(b), p.tb)[2])
      \* tiles of blocks are only meant to be assembled and read
      [] c.op = "kron" -> IF (Raw(a) /\ Raw(b)) \/ "TB" \in {a.k, b.k} THEN "free" ELSE freeIf(BOk(BatchOf(P(a)), BatchOf(P(b))))   \* formed lazily
      [] c.op \in {"neg", "tr", "dense", "to_numpy", "isnan", "T"} -> "ok"
      [] c.op = "abs" -> "ok"
      [] c.op = "power" -> IF p.n >= 1 THEN "ok"
                           ELSE IF HasZeros(a) THEN "known"
                           ELSE IF p.n = 0 \/ NoZero(Den(a)) THEN "ok" ELSE "free"
      [] c.op = "sqrt" -> freeIf(AllSquares(a))
      [] c.op \in {"diag", "trace", "diag_extract"} -> freeIf(a.k # "Num")
      [] c.op \in {"sum", "mean"} -> okIf(AxOk(p.ax, rk))
      [] c.op = "take" -> IF p.ax = NoAx \/ ~AxOk(p.ax, rk) THEN "reject"
                          ELSE IF IdxOk(p, ShapeOf(a)[PosAx(p.ax, rk)]) THEN "ok"
                          ELSE IF Deep(p) THEN "reject"
                          ELSE IF Kinds(a) \cap {"Zero", "Const"} # {} THEN "free" ELSE "reject"
      [] c.op = "submat" -> IF IdxOk(p, MShape(a)[1]) /\ IdxOk(p, MShape(a)[2]) THEN "ok"
                            ELSE IF Deep(p) THEN "reject"
                            ELSE IF Kinds(a) \cap {"Zero", "Const"} # {} \/ IsMask(p) THEN "free" ELSE "reject"
      [] c.op = "reshape" -> okIf(Prod(p.sh) = Prod(ShapeOf(a)))
      [] c.op \in {"flatten", "squeeze"} -> "ok"
      [] c.op = "index" -> LET S == ShapeOf(a)
                           IN  IF \A k \in 1..Len(p.idx) : p.idx[k] = 77 \/ (-S[k] <= p.idx[k] /\ p.idx[k] < S[k])
                               THEN "ok" ELSE "free"
      [] c.op = "broadcast_to" -> okIf(Len(p.sh) >= rk /\ BOk(ShapeOf(a), p.sh)
                                       /\ BShape(ShapeOf(a), p.sh) = p.sh)
      [] c.op = "broadcast_batch_to" ->
           okIf(BOk(BatchOf(a), p.sh) /\ Len(p.sh) >= Len(BatchOf(a)) /\ BShape(BatchOf(a), p.sh) = p.sh)
      [] c.op = "tile" -> IF Len(p.sh) # rk /\ a.k \in {"Zero", "Const"} THEN "reject" ELSE freeIf(Len(p.sh) = rk)
      [] c.op = "concat" ->
           IF \A k \in 1..Len(xs) : Rk(xs[k]) = rk /\ AxOk(p.ax, rk)
                 /\ DropAt(ShapeOf(xs[k]), PosAx(p.ax, rk)) = DropAt(ShapeOf(a), PosAx(p.ax, rk))
           THEN "ok" ELSE "reject"
      [] c.op = "block" ->
           LET rows == Force([i \in 1..Len(p.lay) |-> MapSeq(LAMBDA k : P(xs[k]), p.lay[i])])
               R == Len(rows)
               C == Len(rows[1])
           IN  freeIf(/\ \A i \in 1..R : Len(rows[i]) = C
                      /\ \A i \in 1..R : \A j \in 1..C :
                            MShape(rows[i][j]) = <<MShape(rows[i][1])[1], MShape(rows[1][j])[2]>>
                      /\ BatchesOk(xs))
      [] c.op = "block_diag" -> okIf(BatchesOk(xs))
      [] c.op = "inv" -> freeIf(SquareM(a) /\ InvParts(a))
      [] c.op = "pd_inv" -> freeIf(SquareM(a) /\ PdFull(a) /\ InvParts(a))
      [] c.op \in {"schur", "pd_schur"} -> freeIf(a.k = "Wb" /\ InvParts(a)
                                                  /\ (c.op = "schur" \/ PdFull(a)))
      [] c.op = "solve" -> IF \A k \in 2..Len(xs) : ZeroFits(a, xs[k]) THEN LinPre(SquareM(a) /\ InvParts(a), xs) ELSE "free"
      [] c.op = "trisolve" -> LinPre(a.k \in {"LT", "UT"} /\ SquareM(a) /\ InvParts(a), xs)
      [] c.op = "cholesky_solve" /\ a.k = "Kr" -> freeIf(b.k = "Kr" /\ KrSolves(a, b))
      [] c.op = "cholesky_solve" -> IF ZeroFits(a, b) THEN LinPre(SquareM(a) /\ InvParts(a), xs) ELSE "free"
      [] c.op \in {"iqf", "iqf_diag"} ->
           IF ~\A k \in 2..Len(xs) : ZeroFits(a, xs[k]) THEN "free"
           ELSE IF c.op = "iqf_diag" /\ Len(xs) = 3 /\ MShape(P(xs[2]))[2] # MShape(P(xs[3]))[2] THEN "free"
           ELSE LET q == LinPre(PdFull(a), xs) IN IF q = "ok" /\ ~BatchesOk(xs) THEN "free" ELSE q
      [] c.op = "ratio" -> freeIf(PdFull(a) /\ PdFull(b) /\ MShape(P(a)) = MShape(P(b)) /\ BatchesOk(xs))
      [] c.op = "cholesky" -> IF ~SquareM(a) THEN (IF a.k \in {"Zero", "Dense", "Const", "LR"} THEN "reject" ELSE "free")
                              ELSE freeIf(PdParts(a))
      [] c.op = "root" -> IF ~SquareM(a) THEN (IF a.k \in {"Zero", "Dense", "Const"} THEN "reject" ELSE "free")
                          ELSE freeIf(PdParts(a))
      [] c.op = "sample" -> freeIf(SquareM(a) /\ PdParts(a))
      [] c.op = "logdet" -> IF a.k \in {"LT", "UT"}
                            THEN freeIf(SquareM(a) /\ \A k \in 1..Len(TDiagV(a.m).e) : TDiagV(a.m).e[k] > 0)
                            ELSE freeIf(SquareM(a) /\ PdFull(a))
      [] c.op = "cast" -> "ok"
      [] c.op = "eye" -> okIf(SquareM(a))
      [] c.op \in {"one", "zero", "ones", "zeros", "shape", "shape_batch", "shape_matrix", "rank"} -> "ok"
      [] c.op \in {"describe", "isabstract"} -> freeIf(~Raw(a))
      [] c.op = "uprank" -> IF p.n = 2 THEN "ok" ELSE IF Raw(a) THEN "free" ELSE "reject"
      [] c.op = "fill_diag" -> "ok"
      [] OTHER -> "free"

BlockRows(c, xs) == Force([i \in 1..Len(c.p.lay) |-> MapSeq(LAMBDA k : xs[k], c.p.lay[i])])
UD(t) == Uprank(Den(t))
TrT(m, do) == IF do THEN TTr(m) ELSE m

(* NumPy basic indexing: ints (drop the axis) for a prefix of the axes. *)
RECURSIVE IndexT(_, _, _)
IndexT(m, idx, k) ==   \* idx[k] for axis 1 of what is left; 77 means "all"
    IF k > Len(idx) THEN m
    ELSE IF idx[k] = 77
         THEN LET n == m.s[1]
                  sub(i) == IndexT(Ten(Tail(m.s), m.d,
                                 Force([z \in 1..Prod(Tail(m.s)) |-> m.e[(i - 1) * Prod(Tail(m.s)) + z]])),
                                 idx, k + 1)
                  parts == Force([i \in 1..n |-> sub(i)])
                  up == Force([i \in 1..n |-> [parts[i] EXCEPT !.s = <<1>> \o parts[i].s]])
              IN  IF n = 0 THEN Full(<<0>> \o IndexT(Full(Tail(m.s), 0), idx, k + 1).s, 0) ELSE TConcat(up, 1)
         ELSE LET i == IF idx[k] < 0 THEN idx[k] + m.s[1] ELSE idx[k]
                  r == Prod(Tail(m.s))
              IN  IndexT(Ten(Tail(m.s), m.d, Force([z \in 1..r |-> m.e[i * r + z]])), idx, k + 1)

Sem(c, xs) ==
    LET p == c.p
        a == Den(xs[1])
        b == Den(xs[2])
        ma == UD(xs[1])
        mb == UD(xs[2])
        rk == Len(a.s)
    IN
    CASE c.op \in Mk -> Den(MkTerm(c.op, p, xs))
      [] c.op \in ShapeOps -> ShapeSem(c.op, p, xs)
      [] c.op = "add" -> TAdd(ma, mb)
      [] c.op = "sub" -> TSub(ma, mb)
      [] c.op = "mul" -> TMul(ma, mb)
      [] c.op = "div" -> TDiv(ma, mb)
      [] c.op = "matmul" -> TMatmul(TrT(ma, p.ta), TrT(mb, p.tb))
      [] c.op = "mm3" -> TMatmul(TMatmul(TrT(ma, p.ta), TrT(mb, p.tb)), TrT(UD(xs[3]), p.tc))
      [] c.op = "matmul_diag" -> TDiagV(TMatmul(TrT(ma, p.ta), TrT(mb, p.tb)))
      [] c.op = "kron" -> TKron(ma, mb)
      [] c.op = "neg" -> TNeg(a)
      [] c.op \in {"tr", "T"} -> TTr(a)
      [] c.op \in {"dense", "to_numpy", "cast"} -> a
      [] c.op = "isnan" -> IsNanOp(xs[1]).t.m
      [] c.op = "abs" -> TAbs(a)
      [] c.op = "power" -> TPow(a, p.n)
      [] c.op = "sqrt" -> TSqrt(a)
      [] c.op \in {"diag", "diag_extract"} -> TDiagV(a)
      [] c.op = "trace" -> LET d == TDiagV(a) IN TSum(d, Len(d.s))
      [] c.op = "sum" -> IF p.ax = NoAx THEN TSumAll(a) ELSE TSum(a, PosAx(p.ax, rk))
      [] c.op = "mean" -> IF p.ax = NoAx THEN TScaleR(TSumAll(a), 1, Prod(a.s))
                          ELSE TScaleR(TSum(a, PosAx(p.ax, rk)), 1, a.s[PosAx(p.ax, rk)])
      [] c.op = "take" -> TTake(a, PosAx(p.ax, rk), Idx(p, a.s[PosAx(p.ax, rk)]))
      [] c.op = "submat" -> TTake(TTake(a, rk - 1, Idx(p, a.s[rk - 1])), rk, Idx(p, a.s[rk]))
      [] c.op = "reshape" -> TReshape(a, p.sh)
      [] c.op = "flatten" -> TReshape(a, <<Prod(a.s)>>)
      [] c.op = "squeeze" -> TSqueeze(a)
      [] c.op = "index" -> IndexT(a, p.idx, 1)
      [] c.op = "broadcast_to" -> TBroadcast(a, p.sh)
      [] c.op = "broadcast_batch_to" -> TBroadcast(a, p.sh \o Last2(a.s))
      [] c.op = "tile" -> TTile(a, p.sh)
      [] c.op = "concat" -> TConcat(MapSeq(Den, xs), PosAx(p.ax, rk))
      [] c.op = "block" -> IF Len(xs) = 1 THEN a ELSE BlockVal(BlockRows(c, xs))
      [] c.op = "block_diag" -> IF Len(xs) = 1
                                THEN (IF xs[1].k = "TB"
                                      THEN (IF Len(TBCopies(xs[1])) = 1 THEN Den(xs[1].b[1])
                                            ELSE BDVal(TBCopies(xs[1])))
                                      ELSE a)
                                ELSE BDVal(xs)
      [] c.op \in {"inv", "pd_inv"} -> TInv(ma)
      [] c.op \in {"schur", "pd_schur"} ->
           LET w == xs[1]
           IN  TAdd(TInv(UD(w.lr.mid)),
                    TMatmul(TMatmul(TTr(UD(w.lr.r)), TInv(Den(w.dg))), UD(w.lr.l)))
      [] c.op \in {"solve", "trisolve"} -> TMatmul(TInv(ma), mb)
      [] c.op = "cholesky_solve" -> TMatmul(TInv(TMatmul(ma, TTr(ma))), mb)
      [] c.op = "iqf" -> TMatmul(TMatmul(TTr(mb), TInv(ma)), UD(xs[Len(xs)]))
      [] c.op = "iqf_diag" -> TDiagV(TMatmul(TMatmul(TTr(mb), TInv(ma)), UD(xs[Len(xs)])))
      [] c.op = "ratio" -> LET d == TDiagV(TMatmul(TInv(mb), ma)) IN TSum(d, Len(d.s))
      [] c.op = "logdet" -> TDet(ma)          \* observed through exp
      [] c.op \in {"cholesky", "root", "sample"} -> ma   \* observed as factor times its transpose
      [] c.op = "eye" -> TEye(MShape(xs[1])[1])
      [] c.op = "one" -> Scal(1)
      [] c.op = "zero" -> Scal(0)
      [] c.op = "ones" -> Full(a.s, 1)
      [] c.op = "zeros" -> Full(a.s, 0)
      [] c.op = "fill_diag" -> TDiagM(TBroadcast(TExpandEnd(a, 1), a.s \o <<p.n>>))
      [] c.op = "describe" -> IVec(a.s)
      [] c.op = "isabstract" -> Scal(0)          \* observed as whether the answer is wrong
      [] c.op = "uprank" -> Uprank(a)
      [] c.op = "shape" -> [s |-> <<Len(a.s)>>, d |-> 1, e |-> a.s]
      [] c.op = "shape_batch" -> [s |-> <<Len(a.s) - 2>>, d |-> 1, e |-> Lead(a.s)]
      [] c.op = "shape_matrix" -> [s |-> <<2>>, d |-> 1, e |-> Last2(a.s)]
      [] c.op = "rank" -> Scal(Len(a.s))

RECURSIVE CanLogdet(_)
CanLogdet(t) == CASE t.k = "Wb" -> ~IsUS(SchurOf(t, TRUE)) /\ CanChol(t.lr.mid)
                  [] t.k = "Kr" -> CanLogdet(t.l) /\ CanLogdet(t.r)
                  [] OTHER -> TRUE
(* Fall-back for elements that keep no structure. *)
Loose(t, v) == W(Arr(v), Structured(t))
Do(c, xs) ==
    LET p == c.p
        a == xs[1]
        b == xs[2]
        rk == Rk(a)
        v == Sem(c, xs)
    IN
    IF \E k \in 1..Len(xs) : xs[k].k \in {"Unsup", "Irr"} THEN US ELSE
    CASE c.op \in Mk -> MkDo(c.op, p, xs)
      [] c.op = "add" -> Add(a, b)
      [] c.op = "sub" -> Sub(a, b)
      [] c.op = "mul" -> Mul(a, b)
      [] c.op = "div" -> Div(a, b)
      [] c.op = "matmul" -> Matmul(a, b, p.ta, p.tb)
      [] c.op = "mm3" -> MM3(a, b, xs[3], p.ta, p.tb, p.tc)
      [] c.op = "matmul_diag" -> MatmulDiag(a, b, p.ta, p.tb)
      [] c.op = "kron" -> Kron(a, b)
      [] c.op = "neg" -> Ok(Neg(a))
      [] c.op \in {"tr", "T"} -> Ok(Tr(a))
      [] c.op \in {"dense", "to_numpy"} -> Ok(Arr(v))
      [] c.op = "cast" -> Ok(a)
      [] c.op = "uprank" -> Ok(IF Raw(a) THEN Arr(v) ELSE a)
      [] c.op = "isnan" -> IsNanOp(a)
      [] c.op \in {"abs", "power", "sqrt"} -> MapU(c.op, p.n, a)
      [] c.op \in {"diag", "diag_extract"} -> DiagOp(a)
      [] c.op = "trace" -> TraceOp(a)
      [] c.op = "sum" -> SumOp(a, NegAx(p.ax, rk))
      [] c.op = "mean" -> MeanOp(a, NegAx(p.ax, rk))
      [] c.op = "take" -> Take(a, Idx(p, ShapeOf(a)[PosAx(p.ax, rk)]), NegAx(p.ax, rk))
      [] c.op = "submat" -> Submat(a, Idx(p, MShape(a)[1]))
      [] c.op \in {"reshape", "flatten", "squeeze", "index"} -> Loose(a, v)
      [] c.op = "broadcast_to" -> BroadTo(a, p.sh)
      [] c.op = "broadcast_batch_to" -> BatchTo(a, p.sh)
      [] c.op = "tile" -> TileOp(a, p.sh)
      [] c.op = "concat" -> ConcatOp(xs, p.ax)
      [] c.op = "block" -> BlockOp(BlockRows(c, xs))
      [] c.op = "block_diag" -> IF Len(xs) = 1 /\ a.k = "TB" THEN BlockDiagTB(a) ELSE BlockDiagOp(xs)
      [] c.op = "inv" -> InvOp(a)
      [] c.op = "pd_inv" -> PdInvOp(a)
      [] c.op = "schur" -> SchurOf(a, FALSE)
      [] c.op = "pd_schur" -> SchurOf(a, TRUE)
      [] c.op = "solve" -> SolveOp(a, b)
      [] c.op = "trisolve" -> SolveOp(a, b)
      [] c.op = "cholesky_solve" -> CholSolveOp(a, b)
      [] c.op = "iqf" -> IqfOp(a, b, xs[Len(xs)], FALSE)
      [] c.op = "iqf_diag" -> IqfOp(a, b, xs[Len(xs)], TRUE)
      [] c.op = "ratio" -> IF CanChol(a) /\ CanChol(b) /\ SquareChol(b) THEN IrrLike(RatioLike(a, b)) ELSE US
      [] c.op = "logdet" -> IF a.k \in {"LT", "UT"} \/ (CanChol(a) /\ CanLogdet(a)) THEN IrrLike(LogdetLike(a)) ELSE US
      [] c.op = "cholesky" -> CholOp(a)
      [] c.op = "root" -> IF RootKind(a) = "Unsup" THEN US ELSE W([k |-> "Irr", like |-> Unsup, as |-> RootKind(a)], RootWarn(a))
      [] c.op = "sample" -> IF CanChol(a) THEN IrrLike(SampleLike(a)) ELSE US
      [] c.op = "eye" -> Ok(Diag(Full(<<MShape(a)[1]>>, 1)))
      [] c.op = "ones" -> IF Raw(a) THEN Ok(Arr(v))
                         ELSE Ok(Const(Full(BatchOf(a), 1), MShape(a)[1], MShape(a)[2]))
      [] c.op = "zeros" -> IF Raw(a) THEN Ok(Arr(v)) ELSE Ok(Zero(v.s))
      [] c.op = "fill_diag" -> Ok(Diag(TBroadcast(TExpandEnd(Den(a), 1), Den(a).s \o <<p.n>>)))
      [] OTHER -> Ok(Arr(v))
=============================================================================
