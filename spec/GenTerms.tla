------------------------------ MODULE GenTerms ------------------------------
(***************************************************************************)
(* Deterministic pseudo-random construction of terms.  A seed is a pair of *)
(* small integers; Sd derives independent seeds from it.                  *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

(* What to generate: the record of a profile (harness/profiles.py). *)
CFG == JsonDeserialize(IOEnv.GEN_CFG)

M1 == 46337
M2 == 46327
H1(x, y, k) == LET u == (((x * 31321) % M1) + ((y * 17389) % M1) + (((k % M1) * 911) % M1) + 7) % M1
                   v == ((u * 40503) + ((u \div 97) * 131)) % M1
               IN  (((v * 28411) % M1) + ((v \div 211) * 17) + y) % M1
H2(x, y, k) == LET u == (((y * 29873) % M2) + ((x * 21577) % M2) + (((k % M2) * 1327) % M2) + 13) % M2
                   v == ((u * 38699) + ((u \div 89) * 119)) % M2
               IN  (((v * 33403) % M2) + ((v \div 223) * 23) + x) % M2
Sd(s, k) == <<H1(s[1], s[2], k), H2(s[1], s[2], k + 5)>>
Rnd(s, n) == IF n < 1 THEN 0 ELSE ((s[1] * 3 + s[2]) \div 5) % n              \* 0 .. n-1
Pick(s, seq) == seq[Rnd(s, Len(seq)) + 1]
Chance(s, num, den) == Rnd(s, den) < num

Entry(s, mode) ==
    CASE mode = "gen"  -> Rnd(s, 7) - 3
      [] mode = "nz"   -> Pick(s, <<-3, -2, -1, 1, 2, 3>>)
      [] mode = "pos"  -> Rnd(s, 3) + 1
      [] mode = "sq"   -> Pick(s, <<0, 1, 4, 9>>)
      [] mode = "psq"  -> Pick(s, <<1, 4, 9, 1>>)
      [] mode = "unit" -> Pick(s, <<1, -1, 1, 2>>)
      [] mode = "tiny" -> Rnd(s, 3) - 1
      [] mode = "nzt"  -> Pick(s, <<-1, 1, 2, -2>>)
      [] mode = "pt"   -> Pick(s, <<1, 2, 1, 4>>)
      [] mode = "one"  -> 1
      [] mode = "zero" -> 0

GTen(s, shape, mode) ==
    [s |-> shape, d |-> 1,
     e |-> Force([k \in 1..Prod(shape) |-> Entry(Sd(s, k), mode)])]
(* Sometimes halves. *)
GTenH(s, shape, mode) ==
    IF Chance(Sd(s, 9001), 1, 4) /\ mode \in {"gen", "nz", "pos"}
    THEN Ten(shape, 2, GTen(s, shape, mode).e) ELSE GTen(s, shape, mode)
(* Matrices with a chance of repeated or vanishing columns. *)
GMat(s, shape, mode) ==
    LET t == GTenH(s, shape, mode)
        n == Len(shape)
        q == shape[n]
        z == Rnd(Sd(s, 9002), 6)
    IN  IF q >= 2 /\ z = 0 /\ mode \in {"gen", "nz", "tiny"}
        THEN TTake(t, n, Force([k \in 1..q |-> IF k = 1 THEN 0 ELSE k - 2]))   \* duplicate
        ELSE IF q >= 2 /\ z = 1 /\ mode \in {"gen", "tiny"}
        THEN TMul(t, [s |-> <<1, q>>, d |-> 1,
                      e |-> Force([k \in 1..q |-> IF k = 1 THEN 0 ELSE 1])])
        ELSE t

BatchPool == << <<>>, <<>>, <<>>, <<2>>, <<2>>, <<3>>, <<1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<2, 1, 2>> >>
GBatch(s) == Pick(s, BatchPool)
GBatchF(s) == Pick(s, << <<2>>, <<3>>, <<1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<2, 1, 2>>, <<1, 1>>, <<2>> >>)
(* A batch shape that broadcasts to B. *)
RECURSIVE Shrink(_, _, _)
Shrink(s, B, k) == IF k > Len(B) THEN <<>>
                   ELSE <<IF Chance(Sd(s, k), 1, 4) THEN 1 ELSE B[k]>> \o Shrink(s, B, k + 1)
SubBatch(s, B) ==
    LET z == Rnd(Sd(s, 77), 6)
    IN  IF B = <<>> \/ z = 0 THEN <<>>
        ELSE IF z <= 2 THEN B
        ELSE LET drop == Rnd(Sd(s, 78), Len(B) + 1)
             IN  Shrink(Sd(s, 79), SubSeq(B, drop + 1, Len(B)), 1)

(* Batch shape with w at position j, and other dimensions that broadcast to B. *)
SubBatchAt(s, B, j, w) ==
    Force([k \in 1..Len(B) |-> IF k = j THEN w ELSE IF Chance(Sd(s, k), 1, 4) THEN 1 ELSE B[k]])

Tri(s, shape, mode, up, dmode) ==
    LET t == TTri(GTen(s, shape, mode), up)
        n == shape[Len(shape)]
        dg == GTen(Sd(s, 9003), SubSeq(shape, 1, Len(shape) - 1), dmode)
        off == TMul(t, TSub(Full(<<n, n>>, 1), TEye(n)))
    IN  TAdd(off, TDiagM(dg))
(* Symmetric positive definite with an integer Cholesky factor. *)
SpdM(s, shape) == LET L == Tri(s, shape, "tiny", FALSE, "pt") IN TMatmul(L, TTr(L))
(* Invertible with a small determinant. *)
InvMat(s, shape) == TMatmul(Tri(s, shape, "tiny", FALSE, "one"), Tri(Sd(s, 5), shape, "tiny", TRUE, "nzt"))

(* Least common multiple of the non-zero numerators, saturating. *)
SatLcm(e) == FoldLeft(LAMBDA acc, x : IF x = 0 \/ acc >= 2000 THEN acc
                                      ELSE IF Abs(x) > 2000 THEN 4000 ELSE Lcm(acc, Abs(x)), 1, e)
LcmDets(t) == LET ds == TDetN(t) IN SatLcm(ds)
Tame(t, bound) == MaxAbs(t) <= bound /\ t.d <= 64

Divs(n) == IF n <= 1 THEN <<1>> ELSE IF n = 2 THEN <<1, 2>> ELSE IF n = 3 THEN <<1, 3>>
           ELSE IF n = 4 THEN <<2, 1, 2, 4>> ELSE IF n = 6 THEN <<2, 3, 2, 3, 1, 6>> ELSE IF n = 8 THEN <<2, 4, 2, 4, 1, 8>> ELSE <<1, n>>

(* ------------------------------------------------------------------ terms *)
RECURSIVE GTerm(_, _, _, _, _, _, _)
(* Low-rank factor with r rows and rho columns. *)
GFactor(s, r, rho, B, mode, simple) ==
    LET z == Rnd(Sd(s, 1), 12)
        bb == SubBatch(Sd(s, 2), B)
    IN  IF simple \/ z <= 5 THEN Arr(GMat(Sd(s, 3), bb \o <<r, rho>>, mode))
        ELSE IF z <= 8 THEN Dense(GMat(Sd(s, 3), bb \o <<r, rho>>, mode))
        ELSE IF z = 9 THEN Const(GTen(Sd(s, 3), bb, "nz"), r, rho)
        ELSE IF r = rho /\ z = 10 THEN Diag(GTen(Sd(s, 3), bb \o <<r>>, "nz"))
        ELSE IF r = rho /\ z = 11 THEN LT(TTri(GTen(Sd(s, 3), bb \o <<r, r>>, "nz"), FALSE))
        ELSE Arr(GMat(Sd(s, 3), bb \o <<r, rho>>, mode))
(* pur: "any", "inv" (middle invertible), "spd" *)
GLR(s, r, q, B, mode, pur) ==
    LET rho == Pick(Sd(s, 1), IF pur # "any" THEN <<1, 1, 2>> ELSE IF CFG.big > 0 THEN <<1, 2, 3, 4, 5>> ELSE <<1, 1, 2, 2, 3>>)
        rho2 == IF pur = "any" /\ Chance(Sd(s, 2), 1, 5) THEN Pick(Sd(s, 3), <<1, 2, 3>>) ELSE rho
        dflR == r = q /\ rho = rho2 /\ (pur = "spd" \/ Chance(Sd(s, 4), 1, 2))
        z == Rnd(Sd(s, 5), 8)
        simple == pur # "any"
        bb == SubBatch(Sd(s, 6), B)
        l == GFactor(Sd(s, 7), r, rho, B, mode, simple)
        rr == IF dflR THEN l ELSE GFactor(Sd(s, 8), q, rho2, B, mode, simple)
        dflM == rho = rho2 /\ z <= 2
        mid == IF dflM THEN Diag(Full(<<rho>>, 1))
               ELSE IF rho = rho2 /\ z <= 4
                    THEN Diag(GTen(Sd(s, 9), bb \o <<rho>>,
                                   IF pur = "spd" THEN "psq" ELSE IF pur = "inv" THEN "nzt" ELSE mode))
               ELSE LET m == IF pur = "spd" THEN SpdM(Sd(s, 9), bb \o <<rho, rho>>)
                             ELSE IF pur = "inv" THEN InvMat(Sd(s, 9), bb \o <<rho, rho>>)
                             ELSE GTen(Sd(s, 9), bb \o <<rho, rho2>>, mode)
                    IN  IF z = 5 THEN Dense(m) ELSE Arr(m)
    IN  [k |-> "LR", l |-> l, r |-> rr, mid |-> mid, rd |-> dflR, md |-> dflM]

(* A square root-free positive/invertible Woodbury: retry until the parts fit. *)
RECURSIVE GWb(_, _, _, _, _, _)
GWb(s, n, B, mode, pur, tries) ==
    LET bb == SubBatch(Sd(s, 21), B)
        dg == Diag(GTen(Sd(s, 22), bb \o <<n>>,
                        IF pur = "spd" THEN "psq" ELSE IF pur = "inv" THEN "nzt" ELSE mode))
        lr == GLR(Sd(s, 23), n, n, B, IF pur = "any" THEN mode ELSE "tiny", pur)
        t == Wb(dg, lr)
    IN  IF pur = "any" \/ tries = 0 THEN t
        ELSE IF InvParts(t) /\ LcmDets(Den(t)) <= 300 THEN t
        ELSE GWb(Sd(s, 24), n, B, mode, pur, tries - 1)

RECURSIVE GDense(_, _, _, _, _)
GDense(s, shape, mode, pur, tries) ==
    LET m == IF pur = "spd" THEN SpdM(s, shape) ELSE IF pur = "inv" THEN InvMat(s, shape)
             ELSE GMat(s, shape, mode)
    IN  IF pur = "any" \/ tries = 0 \/ LcmDets(m) <= 300 THEN m
        ELSE GDense(Sd(s, 31), shape, mode, pur, tries - 1)

PurMode(pur, mode) == IF pur = "spd" THEN "psq" ELSE IF pur = "inv" THEN "nzt" ELSE mode
KrLeft  == <<"Dense", "Dense", "Diag", "LT", "Const", "LR", "UT", "Wb", "Dense">>
KrRight == <<"Dense", "Diag", "Dense", "UT", "LR", "Const", "LT", "Kr", "Dense">>
KrPur   == <<"Dense", "Diag", "Dense", "Wb">>
SquareKinds == {"Diag", "LT", "UT", "Wb"}
KrPart(s, pool, r, q, B, mode, pur, depth) ==
    LET k0 == IF depth = 0 THEN "Dense" ELSE Pick(s, IF pur = "any" THEN pool ELSE KrPur)
        k == IF r # q /\ k0 \in SquareKinds THEN "Dense" ELSE k0
    IN  GTerm(Sd(s, 41), k, r, q, B, mode, IF pur = "any" THEN pur ELSE pur)

(* Blocks whose stacking yields r x q. *)
GBlock(s, r, q, B, mode) ==
    LET z == Rnd(Sd(s, 1), 8)
        bb == SubBatch(Sd(s, 2), B)
    IN  IF z <= 3 THEN Arr(GMat(Sd(s, 3), bb \o <<r, q>>, mode))
        ELSE IF z <= 5 THEN Dense(GMat(Sd(s, 3), bb \o <<r, q>>, mode))
        ELSE IF z = 6 THEN Const(GTen(Sd(s, 3), bb, mode), r, q)
        ELSE IF r = q THEN Diag(GTen(Sd(s, 3), bb \o <<r>>, mode)) ELSE Zero(bb \o <<r, q>>)
(* Tiles along the rows or columns, by a negative axis. *)
GTBM(s, r, q, B, mode) ==
    LET vert == Chance(Sd(s, 51), 1, 2)
        n == IF vert THEN r ELSE q
        ax == IF vert THEN -2 ELSE -1
        blk(j, w) == IF vert THEN GBlock(Sd(s, 60 + j), w, q, B, mode)
                     ELSE GBlock(Sd(s, 60 + j), r, w, B, mode)
        z == Rnd(Sd(s, 52), 3)
    IN  IF n <= 1 THEN TB(<<blk(1, n)>>, <<1>>, ax)
        ELSE IF n % 2 = 0 /\ z = 0 THEN TB(<<blk(1, n \div 2)>>, <<2>>, ax)
        ELSE IF z = 1 THEN TB(<<blk(1, n - 1), blk(2, 1)>>, <<1, 1>>, ax)
        ELSE TB(<<blk(1, 1), blk(2, 1)>>, <<n - 1, 1>>, ax)
(* Tiles along a batch dimension. *)
GTBB(s, r, q, B, mode) ==
    LET j == Rnd(Sd(s, 53), Len(B)) + 1
        n == B[j]
        ax == j - Len(B) - 3
        blk(i, w) == GBlock(Sd(s, 60 + i), r, q, <<>>, mode)
        wide(t, w) == BatchTo(t, SubBatchAt(Sd(s, 54 + w), B, j, w)).t
        z == Rnd(Sd(s, 52), 3)
    IN  IF n = 1 THEN TB(<<wide(blk(1, 1), 1)>>, <<1>>, ax)
        ELSE IF n % 2 = 0 /\ z = 0 THEN TB(<<wide(blk(1, 1), n \div 2)>>, <<2>>, ax)
        ELSE IF z = 1 THEN TB(<<wide(blk(1, 1), n - 1), wide(blk(2, 1), 1)>>, <<1, 1>>, ax)
        ELSE TB(<<wide(blk(1, 1), 1), wide(blk(2, 1), 1)>>, <<n - 1, 1>>, ax)
GTB(s, r, q, B, mode) ==
    LET t == IF B # <<>> /\ Chance(Sd(s, 55), 1, 3) THEN GTBB(s, r, q, B, mode) ELSE GTBM(s, r, q, B, mode)
        rk == Len(ShapeOf(t))
    IN  IF rk + t.ax >= 0 /\ Chance(Sd(s, 56), 1, 3) THEN [t EXCEPT !.ax = rk + t.ax] ELSE t

GTerm(s, kind, r, q, B, mode, pur) ==
    LET bb == SubBatch(Sd(s, 11), B)
        m == PurMode(pur, mode)
    IN
    CASE kind = "Zero"  -> Zero(bb \o <<r, q>>)
      [] kind = "Dense" -> Dense(GDense(Sd(s, 12), bb \o <<r, q>>, mode, pur, 12))
      [] kind = "Arr"   -> Arr(GDense(Sd(s, 12), bb \o <<r, q>>, mode, pur, 12))
      [] kind = "Diag"  -> Diag(GTenH(Sd(s, 12), bb \o <<r>>, m))
      [] kind = "Const" -> Const(GTenH(Sd(s, 12), bb, IF pur = "any" THEN mode ELSE "psq"), r, q)
      [] kind = "LT"    -> LT(IF pur = "any" THEN TTri(GMat(Sd(s, 12), bb \o <<r, r>>, mode), FALSE)
                              ELSE Tri(Sd(s, 12), bb \o <<r, r>>, "tiny", FALSE,
                                       IF pur = "spd" THEN "pt" ELSE "nzt"))
      [] kind = "UT"    -> UT(IF pur = "any" THEN TTri(GMat(Sd(s, 12), bb \o <<r, r>>, mode), TRUE)
                              ELSE Tri(Sd(s, 12), bb \o <<r, r>>, "tiny", TRUE,
                                       IF pur = "spd" THEN "pt" ELSE "nzt"))
      [] kind = "LR"    -> GLR(Sd(s, 12), r, q, B, mode, pur)
      [] kind = "Wb"    -> GWb(Sd(s, 12), r, B, mode, pur, 25)
      [] kind = "Kr"    -> LET lr == Pick(Sd(s, 13), Divs(r))
                               lq == IF r = q THEN (IF pur # "any" \/ Chance(Sd(s, 14), 3, 4)
                                                    THEN lr ELSE Pick(Sd(s, 15), Divs(q)))
                                     ELSE Pick(Sd(s, 15), Divs(q))
                           IN  Kr(KrPart(Sd(s, 16), KrLeft, lr, lq, B, mode, pur, 1),
                                  KrPart(Sd(s, 17), KrRight, r \div lr, q \div lq, B, mode, pur, 1))
      [] kind = "TB"    -> GTB(Sd(s, 12), r, q, B, mode)
      [] kind = "Num"   -> [k |-> "Num", m |-> LET x == Scal(Entry(Sd(s, 12), mode))
                                                    IN  IF mode \in {"gen", "nz"} /\ Chance(Sd(s, 13), 1, 4) THEN TScaleR(x, 1, 2) ELSE x]
      [] kind = "Sc"    -> Arr(GTenH(Sd(s, 12), <<>>, mode))
      [] kind = "Vec"   -> Arr(GTenH(Sd(s, 12), <<r>>, mode))
=============================================================================
