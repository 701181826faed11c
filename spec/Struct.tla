------------------------------- MODULE Struct -------------------------------
(***************************************************************************)
(* The structure-preserving algebra: what every operation does to terms.   *)
(*                                                                         *)
(* Each operator mirrors one generic function of the library, one case per *)
(* dispatch rule, and yields [t |-> resulting term, w |-> warned], where w *)
(* says whether structure had to be given up (ToDenseWarning).  Den of the *)
(* resulting term is what the library computes; module DenseSem says what  *)
(* it ought to be, and MC_Algebra checks that both agree.                  *)
(***************************************************************************)
EXTENDS Terms

Ok(t)    == [t |-> t, w |-> FALSE]
Wn(t)    == [t |-> t, w |-> TRUE]
W(t, w)  == [t |-> t, w |-> w]
OrW(r, w) == [t |-> r.t, w |-> r.w \/ w]
US       == Ok(Unsup)
IsUS(r)  == r.t.k = "Unsup"

Cexp(c, n) == TExpandEnd(c, n)
OnesT(s)   == Full(s, 1)

(* Constants as an operand: scalars stay scalars. *)
Factor1(c) == Arr(IF c.s = <<>> THEN c ELSE Cexp(c, 2))

(* Constant as a rank-one matrix. *)
ConstLR(a) == LR(Arr(OnesT(<<a.r, 1>>)), Arr(OnesT(<<a.q, 1>>)), Diag(Cexp(a.c, 1)))

(* --------------------------------------------------------- batch broadcast *)
RECURSIVE BatchTo(_, _)
BatchTo(t, B) ==
    CASE t.k = "Zero"  -> Ok(Zero(B \o Last2(t.s)))
      [] t.k = "Arr"   -> Ok(Arr(TBroadcast(t.m, B \o Last2(t.m.s))))
      [] t.k = "Dense" -> Ok(Dense(TBroadcast(t.m, B \o Last2(t.m.s))))
      [] t.k = "LT"    -> Ok(LT(TBroadcast(t.m, B \o Last2(t.m.s))))
      [] t.k = "UT"    -> Ok(UT(TBroadcast(t.m, B \o Last2(t.m.s))))
      [] t.k = "Const" -> Ok(Const(TBroadcast(t.c, B), t.r, t.q))
      [] t.k = "Diag"  -> Ok(Diag(TBroadcast(t.v, B \o <<t.v.s[Len(t.v.s)]>>)))
      [] t.k = "LR"    -> Ok(LR(BatchTo(t.l, B).t, BatchTo(t.r, B).t, BatchTo(t.mid, B).t))
      [] t.k = "Wb"    -> Ok(Wb(BatchTo(t.dg, B).t, BatchTo(t.lr, B).t))
      [] t.k = "Kr"    -> Ok(Kr(BatchTo(t.l, B).t, BatchTo(t.r, B).t))
      [] OTHER -> US

BroadTo(t, S) ==
    IF t.k = "Unsup" THEN US
    ELSE IF Raw(t) THEN Ok(Arr(TBroadcast(t.m, S)))
    ELSE IF ShapeOf(t) = S THEN Ok(t)
    ELSE IF t.k = "Zero" THEN Ok(Zero(BShape(t.s, S)))
    ELSE IF t.k = "Const" THEN Ok(Const(TBroadcast(t.c, Lead(S)), S[Len(S) - 1], S[Len(S)]))
    ELSE IF MShape(t) = Last2(S) THEN BatchTo(t, Lead(S))
    ELSE W(Dense(TBroadcast(Den(t), S)), Structured(t))

(* ------------------------------------------------------------------ unary *)
RECURSIVE Tr(_)
Tr(t) == CASE t.k = "Zero"  -> Zero(Lead(t.s) \o <<t.s[Len(t.s)], t.s[Len(t.s) - 1]>>)
           [] t.k \in {"Arr", "Dense"} -> [t EXCEPT !.m = TTr(t.m)]
           [] t.k = "Diag"  -> t
           [] t.k = "Const" -> Const(t.c, t.q, t.r)
           [] t.k = "LT"    -> UT(TTr(t.m))
           [] t.k = "UT"    -> LT(TTr(t.m))
           [] t.k = "LR"    -> LR(t.r, t.l, Tr(t.mid))
           [] t.k = "Wb"    -> Wb(t.dg, Tr(t.lr))
           [] t.k = "Kr"    -> Kr(Tr(t.l), Tr(t.r))
           [] t.k = "TB"    -> LET ax == TBAxis(t.ax, Len(ShapeOf(t)))
                               IN  TB(MapSeq(Tr, t.b), t.n,
                                      IF ax = -2 THEN -1 ELSE IF ax = -1 THEN -2 ELSE ax)
           [] OTHER -> Unsup
TrIf(t, do) == IF do THEN Tr(t) ELSE t

RECURSIVE Neg(_)
Neg(t) == CASE t.k = "Zero" -> t
            [] t.k \in {"Arr", "Num", "Dense", "LT", "UT"} -> [t EXCEPT !.m = TNeg(t.m)]
            [] t.k = "Diag"  -> Diag(TNeg(t.v))
            [] t.k = "Const" -> Const(TNeg(t.c), t.r, t.q)
            [] t.k = "LR"    -> LR(t.l, t.r, Neg(t.mid))
            [] t.k = "Wb"    -> Wb(Diag(TNeg(t.dg.v)), Neg(t.lr))
            [] t.k = "Kr"    -> Kr(Neg(t.l), t.r)
            [] OTHER -> Unsup

(* An entry-wise map f with f(0) = 0 that commutes with products. *)
RECURSIVE MapU(_, _, _)
FApply(f, p, m) == CASE f = "abs" -> TAbs(m) [] f = "sqrt" -> TSqrt(m) [] f = "power" -> TPow(m, p)
MapU(f, p, t) ==
    CASE t.k \in {"Arr", "Num", "Dense", "LT", "UT"} -> Ok([t EXCEPT !.m = FApply(f, p, t.m)])
      [] t.k = "Zero"  -> Ok(t)
      [] t.k = "Diag"  -> Ok(Diag(FApply(f, p, t.v)))
      [] t.k = "Const" -> Ok(Const(FApply(f, p, t.c), t.r, t.q))
      [] t.k = "Kr"    -> LET a == MapU(f, p, t.l)
                              b == MapU(f, p, t.r)
                          IN  W(Kr(a.t, b.t), a.w \/ b.w)
      [] OTHER -> Wn(Dense(FApply(f, p, Den(t))))

IsNanOp(t) == W(Arr([Den(t) EXCEPT !.d = 1, !.e =
                      Force([k \in 1..Len(Den(t).e) |-> IF Den(t).e[k] = NaN THEN 1 ELSE 0])]),
                Structured(t))

(* ------------------------------------------------- aligning low-rank factors *)
ColEq(A, B, i, j) == TTake(A, Len(A.s), <<i>>) = TTake(B, Len(B.s), <<j>>)
ColNorm(A, i) == LET c == TTake(A, Len(A.s), <<i>>) IN TSumAll(TMul(c, c))
RLess(x, y) == x.e[1] * y.d < y.e[1] * x.d

RECURSIVE AlignR(_, _, _, _, _, _, _, _, _, _)
AlignR(A, B, na, nb, ia, ib, ap, bp, aj, bj) ==
    IF ia = <<>> /\ ib = <<>> THEN <<ap, bp, aj, bj>>
    ELSE IF ib = <<>> THEN
        AlignR(A, B, na, nb, Tail(ia), ib, Append(ap, ia[1]), Append(bp, -1),
               Append(aj, ia[1]), Append(bj, -1))
    ELSE IF ia = <<>> THEN
        AlignR(A, B, na, nb, ia, Tail(ib), Append(ap, -1), Append(bp, ib[1]),
               Append(aj, -1), Append(bj, ib[1]))
    ELSE IF ColEq(A, B, ia[1], ib[1]) THEN
        AlignR(A, B, na, nb, Tail(ia), Tail(ib), Append(ap, ia[1]), Append(bp, ib[1]),
               Append(aj, ia[1]), Append(bj, -1))
    ELSE IF RLess(na[ia[1] + 1], nb[ib[1] + 1]) THEN
        AlignR(A, B, na, nb, Tail(ia), ib, Append(ap, ia[1]), Append(bp, -1),
               Append(aj, ia[1]), Append(bj, -1))
    ELSE
        AlignR(A, B, na, nb, ia, Tail(ib), Append(ap, -1), Append(bp, ib[1]),
               Append(aj, -1), Append(bj, ib[1]))
(* The permutations that align, and those that join, the columns of A and B. *)
(* Index -1 stands for a column of zeros.                                    *)
Align(A0, B0) ==
    LET BS == BShape(Lead(A0.s), Lead(B0.s))
        A  == TBroadcast(A0, BS \o Last2(A0.s))
        B  == TBroadcast(B0, BS \o Last2(B0.s))
        ca == A.s[Len(A.s)]
        cb == B.s[Len(B.s)]
        na == Force([i \in 1..ca |-> ColNorm(A, i - 1)])
        nb == Force([i \in 1..cb |-> ColNorm(B, i - 1)])
    IN  AlignR(A, B, na, nb,
               SortSeq(Iota(ca), LAMBDA x, y : RLess(na[x + 1], na[y + 1])),
               SortSeq(Iota(cb), LAMBDA x, y : RLess(nb[x + 1], nb[y + 1])),
               <<>>, <<>>, <<>>, <<>>)

PadZ(t, ax) == TConcat(<<t, Full([t.s EXCEPT ![ax] = 1], 0)>>, ax)
PickZ(t, ax, perm) ==       \* select along ax, -1 meaning zeros
    TTake(PadZ(t, ax), ax,
          Force([k \in 1..Len(perm) |-> IF perm[k] = -1 THEN t.s[ax] ELSE perm[k]]))
PickMid(m, pl, pr) == LET n == Len(m.s) IN PickZ(PickZ(m, n - 1, pl), n, pr)

(* Sum of two low-rank matrices: join equal columns, drop a vanishing result. *)
AddLR(a, b) ==
    LET al == Uprank(Den(a.l))
        ar == Uprank(Den(a.r))
        bl == Uprank(Den(b.l))
        br == Uprank(Den(b.r))
        \* columns of different lengths are not matched up
        own(x, y) == LET p == x.s[Len(x.s)]
                         q == y.s[Len(y.s)]
                         ja == Force([k \in 1..p + q |-> IF k <= p THEN k - 1 ELSE -1])
                         jb == Force([k \in 1..p + q |-> IF k <= p THEN -1 ELSE k - p - 1])
                     IN  <<ja, jb, ja, jb>>
        rows(x) == x.s[Len(x.s) - 1]
        L  == IF rows(al) = rows(bl) THEN Align(al, bl) ELSE own(al, bl)
        R  == IF rows(ar) = rows(br) THEN Align(ar, br) ELSE own(ar, br)
        jl == TAdd(PickZ(al, Len(al.s), L[3]), PickZ(bl, Len(bl.s), L[4]))
        jr == TAdd(PickZ(ar, Len(ar.s), R[3]), PickZ(br, Len(br.s), R[4]))
        jm == TAdd(PickMid(Den(a.mid), L[1], R[1]), PickMid(Den(b.mid), L[2], R[2]))
        \* Structured factors are first converted to dense.  Padding the middle
        \* factor converts it as well.
        w  == Structured(a.l) \/ Structured(a.r) \/ Structured(b.l) \/ Structured(b.r)
              \/ Structured(a.mid) \/ Structured(b.mid)
        lr == LR(Dense(jl), Dense(jr), Dense(jm))
    IN  IF MaxAbs(jm) = 0 THEN W(Zero(ShapeOf(lr)), w) ELSE W(lr, w)

(* ---------------------------------------------------------- addition (etc.) *)
RECURSIVE AddM(_, _)
AddM(a, b) ==
    LET S == BShape(ShapeOf(a), ShapeOf(b))
        ks == {a.k, b.k}
        swap(x, y) == a.k = y /\ b.k = x
        is(x, y) == a.k = x /\ b.k = y
    IN
    CASE "Unsup" \in ks -> US
      [] b.k = "Zero" -> BroadTo(a, S)
      [] a.k = "Zero" -> BroadTo(b, S)
      [] ks = {"Diag"}  -> Ok(Diag(TAdd(a.v, b.v)))
      [] ks = {"Const"} -> Ok(Const(TAdd(a.c, b.c), S[Len(S) - 1], S[Len(S)]))
      [] is("Const", "Diag") -> Ok(Wb(b, ConstLR(Const(a.c, S[Len(S) - 1], S[Len(S)]))))
      [] swap("Const", "Diag") -> AddM(b, a)
      [] is("LR", "Const") -> AddLR(a, ConstLR(Const(b.c, S[Len(S) - 1], S[Len(S)])))
      [] swap("LR", "Const") -> AddM(b, a)
      [] ks = {"LT"} -> Ok(LT(TAdd(a.m, b.m)))
      [] ks = {"UT"} -> Ok(UT(TAdd(a.m, b.m)))
      [] ks = {"LT", "UT"} -> Ok(Dense(TAdd(a.m, b.m)))
      [] a.k = "LT" /\ b.k = "Diag" -> Ok(LT(TAdd(a.m, Den(b))))
      [] a.k = "Diag" /\ b.k = "LT" -> Ok(LT(TAdd(Den(a), b.m)))
      [] a.k = "UT" /\ b.k = "Diag" -> Ok(UT(TAdd(a.m, Den(b))))
      [] a.k = "Diag" /\ b.k = "UT" -> Ok(UT(TAdd(Den(a), b.m)))
      [] ks = {"LR"} -> AddLR(a, b)
      [] is("LR", "Diag") -> Ok(Wb(b, a))
      [] is("Diag", "LR") -> Ok(Wb(a, b))
      [] ks = {"Wb"} -> LET lr == AddLR(a.lr, b.lr)
                        IN  OrW(AddM(Diag(TAdd(a.dg.v, b.dg.v)), lr.t), lr.w)
      [] is("Wb", "Diag") -> AddM(Diag(TAdd(a.dg.v, b.v)), a.lr)
      [] swap("Wb", "Diag") -> AddM(b, a)
      [] a.k = "Wb" /\ b.k \in {"Const", "LR"} ->
             LET lr == AddM(a.lr, b) IN OrW(AddM(a.dg, lr.t), lr.w)
      [] b.k = "Wb" /\ a.k \in {"Const", "LR"} -> AddM(b, a)
      [] a.k = "Const" -> W(Dense(TAdd(Den(a), Den(b))), Structured(b))
      [] b.k = "Const" -> W(Dense(TAdd(Den(a), Den(b))), Structured(a))
      [] OTHER -> W(Dense(TAdd(Den(a), Den(b))), Structured(a) /\ Structured(b))

Add(a, b) == IF Raw(a) /\ Raw(b) THEN Ok(Arr(TAdd(a.m, b.m))) ELSE AddM(P(a), P(b))
Sub(a, b) == IF Raw(a) /\ Raw(b) THEN Ok(Arr(TSub(a.m, b.m)))
             ELSE LET n == Neg(P(b)) IN IF n.k = "Unsup" THEN US ELSE AddM(P(a), n)

(* ---------------------------------------------------------------- diagonal *)
RECURSIVE MatmulM(_, _, _, _)
RECURSIVE MulM(_, _)
Mul(a, b) == IF Raw(a) /\ Raw(b) THEN Ok(Arr(TMul(a.m, b.m))) ELSE MulM(P(a), P(b))
Matmul(a, b, ta, tb) ==
    IF Raw(a) /\ Raw(b)
    THEN Ok(Arr(TMatmul(IF ta THEN TTr(a.m) ELSE a.m, IF tb THEN TTr(b.m) ELSE b.m)))
    ELSE MatmulM(P(a), P(b), ta, tb)

RECURSIVE DiagOp(_)
DiagOp(t) ==
    CASE t.k \in {"Arr", "Dense", "LT", "UT", "Zero", "Diag", "Const"} -> Ok(Arr(TDiagV(Den(t))))
      [] t.k = "LR" -> LET m == Matmul(t.l, t.mid, FALSE, FALSE)
                       IN  IF IsUS(m) THEN US
                           ELSE W(Arr(TDiagV(Den(t))), Structured(t.l) \/ Structured(t.r) \/ m.w)
      [] t.k = "Wb" -> LET r == DiagOp(t.lr)
                       IN  IF IsUS(r) THEN US ELSE W(Arr(TDiagV(Den(t))), r.w)
      [] t.k = "Kr" -> IF MShape(t.r)[1] # MShape(t.r)[2]
                       THEN Wn(Arr(TDiagV(Den(t))))     \* factors do not line up
                       ELSE LET a == DiagOp(t.l)
                                b == DiagOp(t.r)
                            IN  IF IsUS(a) \/ IsUS(b) THEN US
                                ELSE W(Arr(TDiagV(Den(t))), a.w \/ b.w)
      [] OTHER -> US

(* ---------------------------------------------------------- multiplication *)
MulLR(a, b) ==
    LET prodT(x, y) ==      \* all products of columns, x-major
          LET BS == BShape(Lead(x.s), Lead(y.s))
              n  == BShape(<<x.s[Len(x.s) - 1]>>, <<y.s[Len(y.s) - 1]>>)[1]
              p  == x.s[Len(x.s)]
              q  == y.s[Len(y.s)]
              x2 == TReshape(TBroadcast(x, BS \o <<n, p>>), BS \o <<n, p, 1>>)
              y2 == TReshape(TBroadcast(y, BS \o <<n, q>>), BS \o <<n, 1, q>>)
          IN  TReshape(TMul(x2, y2), BS \o <<n, p * q>>)
    IN  W(LR(Arr(prodT(Uprank(Den(a.l)), Uprank(Den(b.l)))),
             Arr(prodT(Uprank(Den(a.r)), Uprank(Den(b.r)))),
             Arr(TKron(Den(a.mid), Den(b.mid)))),
          Structured(a.l) \/ Structured(a.r) \/ Structured(b.l) \/ Structured(b.r))

MulDiag(a, b) ==    \* a diagonal, b anything
    LET rows == MShape(b)[1]
        cols == MShape(b)[2]
        d == Den(b)
        n == Len(d.s)
    IN  IF rows = 1 THEN Ok(Diag(TMul(a.v, TReshape(d, DropAt(d.s, n - 1)))))
        ELSE IF cols = 1 THEN Ok(Diag(TMul(a.v, TReshape(d, DropAt(d.s, n)))))
        ELSE LET r == DiagOp(b)
             IN  IF IsUS(r) THEN US ELSE W(Diag(TMul(a.v, r.t.m)), r.w)

MulM(a, b) ==
    LET S == BShape(ShapeOf(a), ShapeOf(b))
        ks == {a.k, b.k}
        has(x) == x \in ks
    IN
    CASE "Unsup" \in ks -> US
      [] has("Zero") -> Ok(Zero(S))
      [] ks = {"Diag"} -> Ok(Diag(TMul(a.v, b.v)))
      [] ks = {"Const"} -> Ok(Const(TMul(a.c, b.c), S[Len(S) - 1], S[Len(S)]))
      [] a.k = "Const" /\ b.k = "Diag" -> Ok(Diag(TMul(Cexp(a.c, 1), b.v)))
      [] a.k = "Diag" -> MulDiag(a, b)
      [] b.k = "Diag" -> MulM(b, a)
      [] a.k = "Const" /\ b.k = "LT" -> Ok(LT(TMul(Cexp(a.c, 2), b.m)))
      [] a.k = "Const" /\ b.k = "UT" -> Ok(UT(TMul(Cexp(a.c, 2), b.m)))
      [] b.k = "Const" /\ a.k \in {"LT", "UT", "LR", "Kr"} -> MulM(b, a)
      [] a.k = "Const" /\ b.k = "LR" ->
             LET m == Mul(Factor1(a.c), b.mid) IN W(LR(b.l, b.r, m.t), m.w)
      [] a.k = "Const" /\ b.k = "Kr" ->
             LET m == Mul(Factor1(a.c), b.l)
             IN  IF IsUS(m) THEN US ELSE W(Kr(m.t, b.r), m.w)
      [] a.k = "Wb" -> LET x == MulM(a.dg, b)
                           y == MulM(a.lr, b)
                       IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE OrW(AddM(x.t, y.t), x.w \/ y.w)
      [] b.k = "Wb" -> MulM(b, a)
      [] ks = {"LT"} -> Ok(LT(TMul(a.m, b.m)))
      [] ks = {"UT"} -> Ok(UT(TMul(a.m, b.m)))
      [] ks = {"LT", "UT"} -> Ok(Diag(TMul(TDiagV(a.m), TDiagV(b.m))))
      [] a.k = "LT" -> Ok(LT(TMul(a.m, Den(b))))
      [] a.k = "UT" -> Ok(UT(TMul(a.m, Den(b))))
      [] b.k \in {"LT", "UT"} -> MulM(b, a)
      [] ks = {"LR"} -> MulLR(a, b)
      [] ks = {"Kr"} -> IF MShape(P(a.l)) = MShape(P(b.l)) /\ MShape(P(a.r)) = MShape(P(b.r))
                        THEN LET x == Mul(a.l, b.l)
                                 y == Mul(a.r, b.r)
                             IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE W(Kr(x.t, y.t), x.w \/ y.w)
                        ELSE US
      [] a.k = "Const" -> W(Dense(TMul(Den(a), Den(b))), Structured(b))
      [] b.k = "Const" -> W(Dense(TMul(Den(a), Den(b))), Structured(a))
      [] OTHER -> W(Dense(TMul(Den(a), Den(b))), Structured(a) \/ Structured(b))

DivM(a, b) ==
    IF a.k = "Unsup" \/ b.k = "Unsup" THEN US
    ELSE IF b.k = "Const" THEN MulM(a, Const(TDiv(Scal(1), b.c), b.r, b.q))
    ELSE W(Dense(TDiv(Den(a), Den(b))), Structured(a) \/ Structured(b))
Div(a, b) == IF Raw(a) /\ Raw(b) THEN Ok(Arr(TDiv(a.m, b.m))) ELSE DivM(P(a), P(b))

(* --------------------------------------------------------------- reductions *)
(* ax is "none" or negative. *)
RECURSIVE SumOp(_, _)
SumT(t, ax) == IF ax = 0 THEN TSumAll(Den(t)) ELSE TSum(Den(t), Len(ShapeOf(t)) + ax + 1)
FactorSum(t, ax) == IF Raw(t) THEN Ok(Arr(SumT(t, ax))) ELSE SumOp(t, ax)
SumOp(t, ax) ==     \* ax = 0 stands for "all axes"
    LET v == Arr(SumT(t, ax))
        rk == Len(ShapeOf(t))
    IN
    CASE t.k \in {"Arr", "Dense", "LT", "UT", "Zero"} -> Ok(v)
      [] t.k = "Diag" -> IF ax \in {0, -1, -2} THEN Ok(v)
                         ELSE Ok(Diag(TSum(t.v, rk + ax + 1)))
      [] t.k = "Const" -> IF ax \in {0, -1, -2} THEN Ok(v)
                          ELSE Ok(Const(TSum(t.c, rk + ax + 1), t.r, t.q))
      [] t.k = "LR" ->
           IF ax = 0 THEN
             LET m == Matmul(t.l, t.mid, FALSE, FALSE)
             IN  IF IsUS(m) THEN US
                 ELSE LET x == FactorSum(m.t, -2)
                          y == FactorSum(t.r, -2)
                      IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE W(v, m.w \/ x.w \/ y.w)
           ELSE IF ax \in {-1, -2} THEN
             LET keep == IF ax = -2 THEN t.r ELSE t.l
                 gone == IF ax = -2 THEN t.l ELSE t.r
                 m == Matmul(keep, t.mid, FALSE, ax = -2)
                 g == FactorSum(gone, -2)
             IN  IF IsUS(m) \/ IsUS(g) THEN US
                 ELSE LET p == Mul(Arr(TExpand(g.t.m, Len(g.t.m.s))), m.t)
                      IN  IF IsUS(p) THEN US
                          ELSE LET s == FactorSum(p.t, -1)
                               IN  IF IsUS(s) THEN US ELSE W(v, m.w \/ g.w \/ p.w \/ s.w)
           ELSE Wn(v)
      [] t.k = "Wb" -> IF ax \in {0, -1, -2}
                       THEN LET r == SumOp(t.lr, IF ax = 0 THEN -1 ELSE ax)
                            IN  IF IsUS(r) THEN US ELSE W(v, r.w)
                       ELSE Wn(Dense(v.m))
      [] t.k = "Kr" -> IF ax \in {0, -1, -2}
                       THEN LET f == IF ax = 0 THEN -1 ELSE ax
                                x == FactorSum(t.l, f)
                                y == FactorSum(t.r, f)
                            IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE W(v, x.w \/ y.w)
                       ELSE Wn(v)
      [] OTHER -> US
MeanOp(t, ax) ==
    LET s == SumOp(t, ax)
        S == ShapeOf(t)
        n == IF ax = 0 THEN Prod(S) ELSE S[Len(S) + ax + 1]
    IN  IF IsUS(s) THEN US
        ELSE IF Raw(s.t) THEN W(Arr(TScaleR(s.t.m, 1, n)), s.w)
        ELSE OrW(DivM(s.t, Const(Scal(n), 1, 1)), s.w)
TraceOp(t) == LET d == DiagOp(t)
              IN  IF IsUS(d) THEN US ELSE W(Arr(TSum(d.t.m, Len(d.t.m.s))), d.w)

(* ------------------------------------------------------ matrix multiplication *)
RawM(t) == Arr(Den(t))
TrD(t, do) == IF do THEN TTr(Den(t)) ELSE Den(t)
MShTr(t, do) == IF do THEN <<MShape(t)[2], MShape(t)[1]>> ELSE MShape(t)

MM3(a, b, c, ta, tb, tc) ==
    LET x == MShTr(P(a), ta)
        y == MShTr(P(b), tb)
        z == MShTr(P(c), tc)
        abFirst == x[1] * x[2] * y[2] + x[1] * y[2] * z[2]
        bcFirst == y[1] * y[2] * z[2] + x[1] * y[1] * z[2]
    IN  IF abFirst <= bcFirst
        THEN LET p == Matmul(a, b, ta, tb)
             IN  IF IsUS(p) THEN US ELSE OrW(Matmul(p.t, c, FALSE, tc), p.w)
        ELSE LET p == Matmul(b, c, tb, tc)
             IN  IF IsUS(p) THEN US ELSE OrW(Matmul(a, p.t, ta, FALSE), p.w)

MatmulM(a, b, ta, tb) ==
    LET ks == {a.k, b.k}
        is(x, y) == a.k = x /\ b.k = y
        BS == BShape(BatchOf(a), BatchOf(b))
        val == TMatmul(TrD(a, ta), TrD(b, tb))
        ar == MShTr(a, ta)
        bc == MShTr(b, tb)
        tri == {"LT", "UT"}
        a2 == TrIf(a, ta)
        b2 == TrIf(b, tb)
    IN
    CASE "Unsup" \in ks -> US
      [] "Zero" \in ks -> Ok(Zero(BS \o <<ar[1], bc[2]>>))
      [] ks = {"Dense"} -> Ok(Dense(val))
      [] a.k = "Wb" -> LET x == MatmulM(a.dg, b, ta, tb)
                           y == MatmulM(a.lr, b, ta, tb)
                       IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE OrW(AddM(x.t, y.t), x.w \/ y.w)
      [] b.k = "Wb" -> LET x == MatmulM(a, b.dg, ta, tb)
                           y == MatmulM(a, b.lr, ta, tb)
                       IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE OrW(AddM(x.t, y.t), x.w \/ y.w)
      [] ks = {"Diag"} -> Ok(Diag(TMul(a.v, b.v)))
      [] ks = {"Const"} -> Ok(Const(TMul(TMul(a.c, b.c), Scal(a2.q)), a2.r, b2.q))
      [] ks = {"LR"} ->
           LET inner == Matmul(a2.r, b2.l, TRUE, FALSE)
           IN  IF IsUS(inner) THEN US
               ELSE LET m == MM3(a2.mid, inner.t, b2.mid, FALSE, FALSE, FALSE)
                    IN  IF IsUS(m) THEN US
                        ELSE LET one == MShape(P(m.t)) = <<1, 1>>
                                 d == Den(m.t)
                             IN  W(LR(a2.l, b2.r,
                                      IF one THEN Diag(TReshape(d, SubSeq(d.s, 1, Len(d.s) - 1)))
                                      ELSE m.t),
                                   inner.w \/ m.w \/ (one /\ Structured(m.t)))
      [] is("LR", "Const") -> MatmulM(a, ConstLR(b), ta, tb)
      [] is("Const", "LR") -> MatmulM(ConstLR(a), b, ta, tb)
      [] a.k = "LR" -> LET x == Matmul(b2, a2.r, TRUE, FALSE)
                       IN  IF IsUS(x) THEN US ELSE W(LR(a2.l, x.t, a2.mid), x.w)
      [] b.k = "LR" -> LET x == Matmul(a2, b2.l, FALSE, FALSE)
                       IN  IF IsUS(x) THEN US ELSE W(LR(x.t, b2.r, b2.mid), x.w)
      [] a.k = "Const" ->
           LET s == SumOp(b2, -2)
           IN  IF IsUS(s) THEN US
               ELSE W(LR(Arr(OnesT(<<a2.r, 1>>)), Arr(TExpandEnd(s.t.m, 1)), Diag(Cexp(a.c, 1))), s.w)
      [] b.k = "Const" ->
           LET s == SumOp(a2, -1)
           IN  IF IsUS(s) THEN US
               ELSE W(LR(Arr(TExpandEnd(s.t.m, 1)), Arr(OnesT(<<b2.q, 1>>)), Diag(Cexp(b.c, 1))), s.w)
      [] a.k = "Diag" /\ b.k \in tri -> Ok([b2 EXCEPT !.m = val])
      [] b.k = "Diag" /\ a.k \in tri -> Ok([a2 EXCEPT !.m = val])
      [] ks = {"Diag", "Kr"} -> Wn(Dense(val))
      [] a.k = "Diag" -> MulM(Dense(TExpandEnd(a.v, 1)), b2)
      [] b.k = "Diag" -> MulM(a2, Dense(TExpand(b.v, Len(b.v.s))))
      [] a.k \in tri /\ a.k = b.k /\ a2.k = b2.k -> Ok([a2 EXCEPT !.m = val])
      [] a.k \in tri -> OrW(MatmulM(Dense(a.m), b, ta, tb), Structured(b))
      [] b.k \in tri -> OrW(MatmulM(a, Dense(b.m), ta, tb), Structured(a))
      [] ks = {"Kr"} ->
           IF MShTr(P(a.l), ta)[2] = MShTr(P(b.l), tb)[1] /\ MShTr(P(a.r), ta)[2] = MShTr(P(b.r), tb)[1]
           THEN LET x == Matmul(a.l, b.l, ta, tb)
                    y == Matmul(a.r, b.r, ta, tb)
                IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE W(Kr(x.t, y.t), x.w \/ y.w)
           ELSE US
      [] a.k = "Kr" ->     \* one factor at a time, on reshaped arrays
           LET raw(n) == Arr(Full(<<n, 1>>, 0))
               x == Matmul(a2.l, raw(MShape(P(a2.l))[2]), FALSE, FALSE)
               y == Matmul(a2.r, raw(MShape(P(a2.r))[2]), FALSE, FALSE)
           IN  IF IsUS(x) \/ IsUS(y) THEN US
               ELSE W(Dense(val), Structured(b) \/ x.w \/ y.w \/ Structured(x.t) \/ Structured(y.t))
      [] b.k = "Kr" -> LET r == MatmulM(b, a, ~tb, ~ta) IN IF IsUS(r) THEN US ELSE W(Tr(r.t), r.w)
      [] OTHER -> US

MatmulDiag(a, b, ta, tb) ==
    LET pa == P(a)
        pb == P(b)
    IN  IF pa.k = "LR" /\ pb.k = "LR"
        THEN LET m == MatmulM(pa, pb, ta, tb)
             IN  IF IsUS(m) THEN US ELSE OrW(DiagOp(m.t), m.w)
        ELSE LET m == Mul(TrIf(a, ~ta), TrIf(b, tb))
             IN  IF IsUS(m) THEN US ELSE OrW(FactorSum(m.t, -2), m.w)

Kron(a, b) ==
    IF Raw(a) /\ Raw(b) THEN Ok(Arr(TKron(a.m, b.m)))
    ELSE LET x == P(a)
             y == P(b)
             S == BShape(BatchOf(x), BatchOf(y))
                  \o <<MShape(x)[1] * MShape(y)[1], MShape(x)[2] * MShape(y)[2]>>
         IN  IF x.k = "Zero" \/ y.k = "Zero" THEN Ok(Zero(S))
             ELSE IF x.k = "Const" /\ y.k = "Const"
             THEN Ok(Const(TMul(x.c, y.c), S[Len(S) - 1], S[Len(S)]))
             ELSE Ok(Kr(x, y))

(* ----------------------------------------------------------------- selection *)
(* idx: 0-based positions; ax negative. *)
RECURSIVE Take(_, _, _)
TakeT(m, idx, ax) == TTake(m, Len(m.s) + ax + 1, idx)
ToBatch(t, B) == IF Raw(t) THEN Arr(TBroadcast(t.m, B \o Last2(t.m.s))) ELSE BatchTo(t, B).t
Take(t, idx, ax) ==
    LET v == TakeT(Den(t), idx, ax)
        rk == Len(ShapeOf(t))
        mat == ax \in {-1, -2}
    IN
    CASE t.k \in {"Arr", "Dense"} -> Ok([t EXCEPT !.m = v])
      [] t.k = "Zero" -> Ok(Zero(v.s))
      [] t.k = "Diag" -> IF mat THEN Wn(Dense(v)) ELSE Ok(Diag(TakeT(t.v, idx, ax + 1)))
      [] t.k = "Const" -> IF mat THEN Ok(Const(t.c, v.s[rk - 1], v.s[rk]))
                          ELSE Ok(Const(TakeT(t.c, idx, ax + 2), t.r, t.q))
      [] t.k \in {"LT", "UT"} -> IF mat THEN Ok(Dense(v)) ELSE Ok([t EXCEPT !.m = v])
      [] t.k = "LR" ->
           IF ax = -2 THEN LET x == Take(t.l, idx, -2) IN W(LR(x.t, t.r, t.mid), x.w)
           ELSE IF ax = -1 THEN LET x == Take(t.r, idx, -2) IN W(LR(t.l, x.t, t.mid), x.w)
           ELSE LET B == BatchOf(t)
                    x == Take(ToBatch(t.l, B), idx, ax)
                    y == Take(ToBatch(t.r, B), idx, ax)
                    z == Take(ToBatch(t.mid, B), idx, ax)
                IN  W(LR(x.t, y.t, z.t), x.w \/ y.w \/ z.w)
      [] t.k = "Wb" ->
           IF mat THEN Wn(Dense(v))
           ELSE LET B == BatchOf(t)
                    x == Take(ToBatch(t.dg, B), idx, ax)
                    y == Take(ToBatch(t.lr, B), idx, ax)
                IN  OrW(AddM(x.t, y.t), x.w \/ y.w)
      [] t.k = "Kr" ->
           IF mat THEN Wn(Dense(v))
           ELSE LET B == BatchOf(t)
                    x == Take(ToBatch(t.l, B), idx, ax)
                    y == Take(ToBatch(t.r, B), idx, ax)
                IN  W(Kr(x.t, y.t), x.w \/ y.w)
      [] OTHER -> Wn(Dense(v))

(* Repeated rows move diagonal elements off the diagonal, reordered ones across. *)
Distinct(idx) == \A i, j \in 1..Len(idx) : i # j => idx[i] # idx[j]
Increasing(idx) == \A i \in 1..(Len(idx) - 1) : idx[i] < idx[i + 1]
Submat(t, idx) ==
    LET v == TakeT(TakeT(Den(t), idx, -2), idx, -1)
        n == Len(idx)
    IN
    CASE t.k \in {"Arr", "Dense"} -> Ok(Dense(v))
      [] t.k = "Zero"  -> Ok(Zero(v.s))
      [] t.k = "Diag"  -> IF Distinct(idx) THEN Ok(Diag(TakeT(t.v, idx, -1))) ELSE Wn(Dense(v))
      [] t.k = "Const" -> Ok(Const(t.c, n, n))
      [] t.k \in {"LT", "UT"} -> IF Increasing(idx) THEN Ok([t EXCEPT !.m = v]) ELSE Wn(Dense(v))
      [] t.k = "LR" -> LET x == Take(t.l, idx, -2)
                           y == Take(t.r, idx, -2)
                       IN  W(LR(x.t, y.t, t.mid), x.w \/ y.w)
      [] t.k = "Wb" -> IF ~Distinct(idx) THEN Wn(Dense(v)) ELSE
                       LET x == Take(t.lr.l, idx, -2)
                           y == Take(t.lr.r, idx, -2)
                       IN  W(Wb(Diag(TakeT(t.dg.v, idx, -1)), LR(x.t, y.t, t.lr.mid)), x.w \/ y.w)
      [] OTHER -> Wn(Dense(v))

(* ---------------------------------------------------------------- assembling *)
TileOp(t, reps) ==
    LET v == TTile(Den(t), reps)
    IN  CASE t.k = "Zero" -> Ok(Zero(v.s))
          [] t.k = "Const" -> Ok(Const(TTile(t.c, SubSeq(reps, 1, Len(reps) - 2)),
                                       v.s[Len(v.s) - 1], v.s[Len(v.s)]))
          [] Raw(t) -> Ok(Arr(v))
          [] OTHER -> W(Dense(v), Structured(t))

ConcatOp(ts, ax) ==     \* ax as given: negative or not
    LET rk == Len(ShapeOf(ts[1]))
        pos == IF ax < 0 THEN rk + ax + 1 ELSE ax + 1
        v == TConcat(MapSeq(Den, ts), pos)
    IN  IF \A k \in 1..Len(ts) : Raw(ts[k]) THEN Ok(Arr(v))
        ELSE IF \A k \in 1..Len(ts) : ts[k].k = "TB"
        THEN IF \A k \in 1..Len(ts) : ts[k].ax = ax
             THEN Ok(TB(FlattenSeq(MapSeq(LAMBDA t : t.b, ts)),
                        FlattenSeq(MapSeq(LAMBDA t : t.n, ts)), ax))
             ELSE Wn(Dense(v))
        ELSE W(Dense(v), \E k \in 1..Len(ts) : Structured(ts[k]))

AllBatch(ts) == BShapes(MapSeq(LAMBDA t : BatchOf(P(t)), ts))
CanBatch(t) == t.k # "TB"
BlockVal(rows) ==
    LET B == AllBatch(FlattenSeq(rows))
        den(t) == TBroadcast(Uprank(Den(t)), B \o MShape(P(t)))
        n == Len(B)
    IN  TConcat(MapSeq(LAMBDA row : TConcat(MapSeq(den, row), n + 2), rows), n + 1)
DiagCat(ts) ==
    LET B == AllBatch(ts)
        dv(t) == LET d == TDiagV(Den(t)) IN TBroadcast(d, B \o <<d.s[Len(d.s)]>>)
    IN  Diag(TConcat(MapSeq(dv, ts), Len(B) + 1))
BlockOp(rows) ==
    LET all == FlattenSeq(rows)
        v == BlockVal(rows)
        R == Len(rows)
        square(t) == MShape(t)[1] = MShape(t)[2]
    IN  IF Len(all) = 1 THEN Ok(all[1])
        ELSE IF \A k \in 1..Len(all) : all[k].k = "Zero" THEN Ok(Zero(v.s))
        ELSE IF \E k \in 1..Len(all) : ~CanBatch(all[k]) THEN US
        ELSE IF /\ \A k \in 1..R : Len(rows[k]) = R
                /\ \A i \in 1..R : \A j \in 1..R :
                     IF i = j THEN rows[i][j].k \in {"Diag", "Zero"} /\ square(rows[i][j])
                     ELSE rows[i][j].k = "Zero"
             THEN Ok(DiagCat(Force([i \in 1..R |-> rows[i][i]])))
        ELSE Wn(Dense(v))

(* Block-diagonal value. *)
RECURSIVE BDRows(_, _, _, _, _)
BDRows(ds, k, before, C, B) ==
    IF k > Len(ds) THEN <<>>
    ELSE LET d == ds[k]
             n == Len(d.s)
             r == d.s[n - 1]
             c == d.s[n]
             z(w) == Full(B \o <<r, w>>, 0)
         IN  <<TConcat(<<z(before), d, z(C - before - c)>>, n)>> \o BDRows(ds, k + 1, before + c, C, B)
BDVal(ts) ==
    LET B == AllBatch(ts)
        ds == MapSeq(LAMBDA t : TBroadcast(Uprank(Den(t)), B \o MShape(P(t))), ts)
        C == FoldLeft(LAMBDA acc, d : acc + d.s[Len(d.s)], 0, ds)
    IN  TConcat(BDRows(ds, 1, 0, C, B), Len(B) + 1)
BlockDiagOp(ts) ==
    IF Len(ts) = 1 THEN Ok(ts[1])
    ELSE LET v == BDVal(ts)
         IN  IF \A k \in 1..Len(ts) : ts[k].k = "Zero" THEN Ok(Zero(v.s))
             ELSE IF \A k \in 1..Len(ts) : ts[k].k = "Diag" THEN Ok(DiagCat(ts))
             ELSE IF \A k \in 1..Len(ts) : Raw(ts[k]) THEN Ok(Arr(v))
             ELSE Wn(Dense(v))
(* A tile of blocks is spread along the diagonal, every repetition separately. *)
TBCopies(t) == FlattenSeq(Force([j \in 1..Len(t.b) |-> Seq1(t.n[j], t.b[j])]))
BlockDiagTB(t) == BlockDiagOp(TBCopies(t))

(* ------------------------------------------------------------ linear algebra *)
EyeT(n) == TEye(n)
RECURSIVE InvOp(_)
SchurOp(t, invMid) ==     \* inv(middle) + right' inv(diag) left
    LET dinv == Diag(TDiv(Scal(1), t.dg.v))
        s == MM3(t.lr.r, dinv, t.lr.l, TRUE, FALSE, FALSE)
    IN  IF IsUS(s) \/ IsUS(invMid) THEN US
        ELSE OrW(Add(invMid.t, s.t), s.w \/ invMid.w)
WbInv(t, schurInv) ==
    LET dinv == Diag(TDiv(Scal(1), t.dg.v))
        l == Matmul(dinv, t.lr.l, FALSE, FALSE)
        r == Matmul(dinv, t.lr.r, FALSE, FALSE)
    IN  IF IsUS(schurInv) \/ IsUS(l) \/ IsUS(r) THEN US
        ELSE OrW(Sub(dinv, LR(l.t, r.t, schurInv.t)), schurInv.w \/ l.w \/ r.w)
SquareT(t) == MShape(P(t))[1] = MShape(P(t))[2]
InvOp(t) ==
    CASE t.k \in {"Arr", "Dense"} -> Ok([t EXCEPT !.m = TInv(t.m)])
      [] t.k = "Diag" -> Ok(Diag(TDiv(Scal(1), t.v)))
      [] t.k = "Wb" -> LET s == SchurOp(t, InvOp(t.lr.mid))
                       IN  IF IsUS(s) THEN US
                           ELSE LET i == InvOp(s.t)
                                IN  IF IsUS(i) THEN US ELSE OrW(WbInv(t, i), s.w)
      [] t.k = "Kr" -> IF SquareT(t.l) /\ SquareT(t.r)
                       THEN LET x == InvOp(t.l)
                                y == InvOp(t.r)
                            IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE W(Kr(x.t, y.t), x.w \/ y.w)
                       ELSE US
      [] OTHER -> US
RECURSIVE PdInvOp(_)
PdInvOp(t) ==
    CASE t.k \in {"Arr", "Dense"} -> Ok(Dense(TInv(t.m)))
      [] t.k = "Diag" -> Ok(Diag(TDiv(Scal(1), t.v)))
      [] t.k = "Wb" -> LET s == SchurOp(t, PdInvOp(t.lr.mid))
                       IN  IF IsUS(s) THEN US
                           ELSE LET i == PdInvOp(s.t)
                                IN  IF IsUS(i) THEN US ELSE OrW(WbInv(t, i), s.w)
      [] t.k = "Kr" -> IF SquareT(t.l) /\ SquareT(t.r)
                       THEN LET x == PdInvOp(t.l)
                                y == PdInvOp(t.r)
                            IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE W(Kr(x.t, y.t), x.w \/ y.w)
                       ELSE US
      [] t.k \in {"Const", "LR"} -> W(Dense(TInv(Den(t))), TRUE)
      [] OTHER -> US
SchurOf(t, pd) == IF t.k = "Wb" THEN SchurOp(t, IF pd THEN PdInvOp(t.lr.mid) ELSE InvOp(t.lr.mid))
                  ELSE US

SolveVal(a, b) == LET x == Uprank(Den(a))
                      y == Uprank(Den(b))
                  IN  TMatmul(TInv(x), y)
SolveOp(a, b) ==
    IF Raw(a) /\ Raw(b) THEN Ok(Arr(SolveVal(a, b)))
    ELSE LET x == P(a)
             y == P(b)
         IN  IF y.k = "Zero" THEN Ok(Zero(BShape(BatchOf(x), BatchOf(y)) \o MShape(y)))
             ELSE IF x.k = "Diag" THEN Matmul(Diag(TDiv(Scal(1), x.v)), b, FALSE, FALSE)
             ELSE IF x.k = "TB" \/ y.k = "TB" THEN US
             ELSE IF x.k \in {"LT", "UT"} THEN W(Dense(SolveVal(x, y)), Structured(y))
             ELSE IF x.k = "Wb" THEN LET i == InvOp(x)
                                     IN  IF IsUS(i) THEN US ELSE OrW(Matmul(i.t, y, FALSE, FALSE), i.w)
             ELSE W(Arr(SolveVal(x, y)), Structured(x) \/ Structured(y))
RECURSIVE CholSolveOp(_, _)
CholSolveOp(a, b) ==
    IF a.k \in {"Diag", "LT", "UT"} /\ P(b).k # "Unsup"
    THEN LET x == SolveOp(a, b) IN IF IsUS(x) THEN US ELSE OrW(SolveOp(Tr(a), x.t), x.w)
    ELSE IF a.k = "Kr" /\ b.k = "Kr"
    THEN LET x == CholSolveOp(a.l, b.l)
             y == CholSolveOp(a.r, b.r)
         IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE W(Kr(x.t, y.t), x.w \/ y.w)
    ELSE US

(* Exact Cholesky factors exist when every pivot is a perfect square. *)
Rem(x, y) == x - y * (x \div y)
RECURSIVE CholStep(_, _, _)
(* One batch element, entries x over denominator d (a perfect square), n x n. *)
CholCol(L, x, n, j, s) == \* s = sqrt of d; L holds numerators over s
    LET piv == x[(j - 1) * n + j] - FoldLeft(LAMBDA acc, k : acc + L[(j - 1) * n + k] * L[(j - 1) * n + k],
                                             0, Force([k \in 1..(j - 1) |-> k]))
        r == ISqrt(piv)
        ent(i) == (x[(i - 1) * n + j]
                   - FoldLeft(LAMBDA acc, k : acc + L[(i - 1) * n + k] * L[(j - 1) * n + k],
                              0, Force([k \in 1..(j - 1) |-> k])))
    IN  IF piv <= 0 \/ ~IsSquare(piv) \/ (\E z \in (j + 1)..n : Rem(ent(z), r) # 0) THEN <<>>
        ELSE Force([q \in 1..(n * n) |->
                 LET y == (q - 1) \div n + 1
                     c == Rem(q - 1, n) + 1
                 IN  IF c # j THEN L[q] ELSE IF y < j THEN 0
                     ELSE IF y = j THEN r ELSE ent(y) \div r])
CholStep(L, x, a) == IF L = <<>> \/ a.j > a.n THEN L
                     ELSE CholStep(CholCol(L, x, a.n, a.j, 1), x, [a EXCEPT !.j = a.j + 1])
CholBatch(t, b) ==
    LET n == t.s[Len(t.s)]
        x == Force([q \in 1..(n * n) |-> t.e[(b - 1) * n * n + q]])
    IN  CholStep(Seq1(n * n, 0), x, [j |-> 1, n |-> n])
(* The exact factor, or BadT when it is irrational. *)
TChol(t) ==
    LET n == t.s[Len(t.s)]
        nb == NBatch(t)
        Ls == Force([b \in 1..nb |-> CholBatch(t, b)])
    IN  IF ~IsSquare(t.d) \/ n = 0 \/ \E b \in 1..nb : Ls[b] = <<>> THEN BadT
        ELSE Ten(t.s, ISqrt(t.d), FlattenSeq(Ls))
IsqrtT(t) == IF TSquares(t) THEN TSqrt(t) ELSE BadT

(* Cholesky(-like) factors: only the kind of the result (and the warning) are *)
(* computed structurally when the value is irrational.  An irrational outcome  *)
(* is like another term, of which only the structure counts.                   *)
IrrLike(r) == W([k |-> "Irr", like |-> r.t], r.w)
EyeB(t) == TBroadcast(TEye(MShape(t)[1]), ShapeOf(P(t)))
RECURSIVE CholLike(_)
CholLike(t) ==
    CASE t.k = "Zero" -> Ok(t)
      [] t.k = "Arr"  -> Ok(Arr(EyeB(t)))
      [] t.k = "Dense" -> Ok(LT(EyeB(t)))
      [] t.k = "Diag" -> Ok(Diag(Full(t.v.s, 1)))
      [] t.k = "Const" -> Ok(Const(Full(t.c.s, 1), t.r, t.q))
      [] t.k = "LR" -> LET c == CholLike(t.mid)
                       IN  IF IsUS(c) THEN US ELSE OrW(Matmul(t.l, c.t, FALSE, FALSE), c.w)
      [] t.k = "Wb" -> Wn(LT(EyeB(t)))
      [] t.k = "Kr" -> LET a == CholLike(t.l)
                           b == CholLike(t.r)
                       IN  IF IsUS(a) \/ IsUS(b) THEN US ELSE W(Kr(a.t, b.t), a.w \/ b.w)
      [] OTHER -> US
RECURSIVE CholOp(_)
CholOp(t) ==
    CASE t.k = "Zero" -> Ok(t)
      [] t.k = "Arr"  -> Ok(Arr(TChol(t.m)))
      [] t.k = "Dense" -> Ok(LT(TChol(t.m)))
      [] t.k = "Diag" -> Ok(Diag(IsqrtT(t.v)))
      [] t.k = "Const" -> Ok(Const(IsqrtT(TScaleR(t.c, 1, t.q)), t.r, t.q))
      [] t.k = "LR" -> LET c == CholOp(t.mid)
                       IN  IF IsUS(c) THEN US
                           ELSE IF c.t.k = "Diag" /\ IsBad(c.t.v) THEN IrrLike(CholLike(t))
                           ELSE IF c.t.k \in {"Arr", "LT"} /\ IsBad(c.t.m) THEN IrrLike(CholLike(t))
                           ELSE IF c.t.k \notin {"Diag", "Arr", "LT"} THEN IrrLike(CholLike(t))
                           ELSE OrW(Matmul(t.l, c.t, FALSE, FALSE), c.w)
      [] t.k = "Wb" -> Wn(LT(TChol(Den(t))))
      [] t.k = "Kr" -> LET a == CholOp(t.l)
                           b == CholOp(t.r)
                       IN  IF IsUS(a) \/ IsUS(b) THEN US
                           ELSE IF a.t.k = "Irr" \/ b.t.k = "Irr" THEN IrrLike(CholLike(t))
                           ELSE W(Kr(a.t, b.t), a.w \/ b.w)
      [] OTHER -> US
RECURSIVE CanChol(_)
CanChol(t) == CASE t.k \in {"Zero", "Arr", "Dense", "Diag", "Const", "Wb"} -> TRUE
                [] t.k = "LR" -> CanChol(t.mid)
                [] t.k = "Kr" -> CanChol(t.l) /\ CanChol(t.r)
                [] OTHER -> FALSE
(* Whether that factor is square. *)
RECURSIVE SquareChol(_)
SquareChol(t) == CASE t.k = "LR" -> MShape(P(t.l))[2] = MShape(t)[1]
                   [] t.k = "Kr" -> SquareChol(t.l) /\ SquareChol(t.r)
                   [] OTHER -> TRUE
RECURSIVE CholKnown(_)
CholKnown(t) == CASE t.k \in {"LT", "UT", "Arr", "Dense"} -> ~IsBad(t.m)
                  [] t.k = "Diag" -> ~IsBad(t.v)
                  [] t.k = "Const" -> ~IsBad(t.c)
                  [] t.k = "Irr" -> FALSE
                  [] t.k = "LR" -> CholKnown(t.l) /\ CholKnown(t.r) /\ CholKnown(t.mid)
                  [] t.k = "Kr" -> CholKnown(t.l) /\ CholKnown(t.r)
                  [] OTHER -> TRUE
(* Quadratic form b' inv(a) c, or its diagonal. *)
IqfLike(a, b, c, diag) ==
    LET l == CholLike(a)
    IN  IF IsUS(l) THEN US ELSE IF ~SquareT(l.t) THEN US
        ELSE LET x == SolveOp(l.t, b)
                 y == SolveOp(l.t, c)
             IN  IF IsUS(x) \/ IsUS(y) THEN US
                 ELSE OrW(IF diag THEN MatmulDiag(x.t, y.t, TRUE, FALSE) ELSE Matmul(x.t, y.t, TRUE, FALSE), l.w \/ x.w \/ y.w)
IqfOp(a, b, c, diag) ==
    LET fin(x, y) == IF diag THEN MatmulDiag(x, y, TRUE, FALSE) ELSE Matmul(x, y, TRUE, FALSE)
    IN
    IF a.k = "Wb"
    THEN LET i == PdInvOp(a)
         IN  IF IsUS(i) THEN US
             ELSE IF ~diag THEN OrW(MM3(b, i.t, c, TRUE, FALSE, FALSE), i.w)
             ELSE LET m == Matmul(i.t, c, FALSE, FALSE)
                  IN  IF IsUS(m) THEN US ELSE OrW(fin(b, m.t), m.w \/ i.w)
    ELSE IF ~CanChol(a) \/ ~SquareChol(a) \/ P(b).k = "TB" \/ P(c).k = "TB" THEN US
    ELSE LET l == CholOp(a)
         IN  IF IsUS(l) \/ ~CholKnown(l.t) THEN IrrLike(IqfLike(a, b, c, diag))
             ELSE IF ~SquareT(l.t) THEN US
             ELSE LET x == SolveOp(l.t, b)
                      y == SolveOp(l.t, c)
                  IN  IF IsUS(x) \/ IsUS(y) THEN US
                      ELSE OrW(fin(x.t, y.t), l.w \/ x.w \/ y.w)

RECURSIVE RootKind(_)
RootKind(t) == CASE t.k = "Arr" -> "Arr"
                 [] t.k \in {"Zero", "Dense", "Diag", "Const"} -> t.k
                 [] t.k \in {"LR", "Wb"} -> "Dense"
                 [] t.k = "Kr" -> IF RootKind(t.l) = "Unsup" \/ RootKind(t.r) = "Unsup" THEN "Unsup" ELSE "Kr"
                 [] OTHER -> "Unsup"
RECURSIVE RootWarn(_)
RootWarn(t) == CASE t.k \in {"LR", "Wb"} -> TRUE
                 [] t.k = "Kr" -> RootWarn(t.l) \/ RootWarn(t.r)
                 [] OTHER -> FALSE
(* The ratio tr(inv(b) a), the log-determinant, and samples: whether a warning is *)
(* issued.                                                                       *)
TraceW(r) == IF IsUS(r) THEN US ELSE OrW(TraceOp(r.t), r.w)
AllOf(rs) == IF \E k \in 1..Len(rs) : IsUS(rs[k]) THEN US
             ELSE W(Arr(Scal(0)), \E k \in 1..Len(rs) : rs[k].w)
RatioLike(a, b) ==
    IF b.k = "Wb"
    THEN LET i == PdInvOp(b)
             m(x, y) == TraceW(Matmul(x, y, FALSE, FALSE))
         IN  IF IsUS(i) THEN US ELSE IF i.t.k # "Wb" THEN US
             ELSE IF a.k = "Wb"
             THEN AllOf(<<i, m(a.dg, i.t), m(a.lr, i.t.dg), m(a.lr, i.t.lr)>>)
             ELSE AllOf(<<i, m(a, i.t.dg), m(a, i.t.lr)>>)
    ELSE LET l == CholLike(a)
         IN  IF IsUS(l) THEN US ELSE AllOf(<<l, IqfLike(b, l.t, l.t, TRUE)>>)
RECURSIVE LogdetLike(_)
LogdetLike(t) ==
    CASE t.k \in {"LR", "Const", "Zero"} -> W(Arr(Scal(0)), TRUE)
      [] t.k = "Wb" -> LET s == SchurOf(t, TRUE)
                       IN  IF IsUS(s) THEN US ELSE AllOf(<<s, LogdetLike(t.lr.mid), LogdetLike(s.t)>>)
      [] t.k = "Kr" -> AllOf(<<LogdetLike(t.l), LogdetLike(t.r)>>)
      [] t.k \in {"Arr", "Dense", "Diag", "LT", "UT"} -> Ok(Arr(Scal(0)))
      [] OTHER -> US
SampleLike(t) ==
    LET draw(x) == LET l == CholLike(x)
                   IN  IF IsUS(l) THEN US
                       ELSE OrW(Matmul(l.t, Arr(Full(BatchOf(P(x)) \o <<MShape(P(l.t))[2], 2>>, 1)), FALSE, FALSE), l.w)
    IN  IF t.k # "Wb" THEN draw(t)
        ELSE LET x == draw(t.dg)
                 y == draw(t.lr)
             IN  IF IsUS(x) \/ IsUS(y) THEN US ELSE OrW(Add(x.t, y.t), x.w \/ y.w)
=============================================================================
