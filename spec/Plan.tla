-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* Choosing calls and operands for them.  A plan is                         *)
(*   [c |-> call, xs |-> operand terms, refs |-> register numbers]          *)
(* where ref 0 marks an operand that has to be created first.               *)
(***************************************************************************)
EXTENDS GenTerms, Json, IOUtils


Kinds2 == <<"Zero", "Dense", "Diag", "Const", "LT", "UT", "LR", "Wb", "Kr", "TB", "Arr", "Num", "Sc", "Vec">>
MatK   == <<"Zero", "Dense", "Diag", "Const", "LT", "UT", "LR", "Wb", "Kr", "TB", "Arr">>
InvK   == <<"Dense", "Diag", "LT", "UT", "Wb", "Kr", "Arr", "Wb", "Kr">>
PdK    == <<"Dense", "Diag", "Wb", "Kr", "Arr", "Wb">>
RootK  == <<"Dense", "Diag", "Wb", "Kr", "Arr", "LR", "Const", "Zero">>
IsSq(k) == k \in SquareKinds

OpPur(op) == CASE op \in {"inv", "solve", "trisolve", "cholesky_solve", "schur"} -> "inv"
               [] op \in {"pd_inv", "iqf", "iqf_diag", "ratio", "logdet", "pd_schur",
                          "cholesky", "root", "sample"} -> "spd"
               [] OTHER -> "any"
OpKinds(op) == CASE op = "trisolve" -> <<"LT", "UT">>
                 [] op \in {"schur", "pd_schur"} -> <<"Wb">>
                 [] op \in {"inv", "solve"} -> InvK
                 [] op = "cholesky_solve" -> <<"Diag", "LT", "UT", "LT", "UT", "KrT">>
                 [] op \in {"pd_inv", "iqf", "iqf_diag", "ratio"} -> PdK \o <<"LR">>
                 [] op = "logdet" -> PdK \o <<"LT", "UT", "LR", "Const">>
                 [] op \in {"cholesky", "root", "sample"} -> RootK
                 [] op = "submat" -> <<"Zero", "Dense", "Diag", "Const", "LT", "UT", "LR", "Wb", "Kr", "TB">>
                 [] op = "fill_diag" -> <<"Sc", "Num", "Sc", "FD">>
                 [] op \in Elementwise \cup {"matmul", "mm3", "matmul_diag", "kron"} -> Kinds2
                 [] op = "isnan" -> <<"Zero", "Dense", "Diag", "Const", "LT", "UT", "LR", "Wb", "Kr", "TB">>
                 [] op \in {"mkLR", "mkTB", "mkKr"} -> <<"Arr", "Dense", "Arr", "Diag", "Const", "LT", "Arr", "Zero">>
                 [] op = "mkWb" -> <<"Diag">>
                 [] op \in {"mkLT", "mkUT"} -> <<"ArrT", "LTm", "Diag", "Zero", "ArrT">>
                 [] op = "mkDense" -> <<"Arr", "Vec", "Sc", "Dense", "Diag", "LT", "LR", "Kr", "Const">>
                 [] op = "mkDiag" -> <<"Vec", "VecB", "VecB", "Dense", "Diag", "LT", "LR", "Kr", "Const", "Wb">>
                 [] op \in {"mkConst", "mkZero"} -> <<"Sc", "FD", "FD">>
                 [] op \in ShapeOps -> MatK \o <<"Sc", "Vec">>
                 [] op = "uprank" -> MatK \o <<"Vec", "Sc">>
                 [] OTHER -> MatK

Pos1(k) == Max2(1, k)
(* Dimensions: mostly 2 and 3. *)
DimE(s, d) == IF CFG.empty /\ Chance(Sd(s, 99), 1, 4) THEN 0 ELSE d
Dim(s) == DimE(s, Pick(s, IF CFG.big = 2 THEN <<1, 2, 3, 9, 10, 12, 16, 17, 18>> ELSE IF CFG.big = 1 THEN <<1, 3, 4, 5, 5, 6, 7, 8>> ELSE <<1, 2, 2, 3, 3, 3, 4, 2>>))
DimS(s) == DimE(s, Pick(s, IF CFG.big = 2 THEN <<2, 3, 4, 9>> ELSE IF CFG.big = 1 THEN <<4, 5, 6, 7, 5, 6>> ELSE <<1, 2, 2, 3, 3, 2>>))

KrTFactor(s, B) == LET n == Pick(Sd(s, 2), <<1, 2, 2>>)
                   IN  GTerm(Sd(s, 1), Pick(Sd(s, 3), <<"LT", "UT", "Diag", "LT">>), n, n, SubBatch(Sd(s, 4), B), "tiny", "inv")
FirstTerm(s, op, kind, B, mode) ==
    LET pur == OpPur(op)
        r0 == IF pur = "any" THEN Dim(Sd(s, 1)) ELSE IF kind = "Kr" /\ CFG.big = 0 THEN Pick(Sd(s, 1), <<1, 2, 4, 4, 3>>)
              ELSE DimS(Sd(s, 1))
        r == IF kind \in {"Kr", "TB"} /\ r0 \in {1, 3} /\ pur = "any" THEN r0 + 1 ELSE r0
        long == CFG.rej /\ op \in {"cholesky", "root", "eye"} /\ kind \in {"Zero", "Dense", "Const", "LR"}
        sq == IF long THEN FALSE ELSE IsSq(kind) \/ pur # "any" \/ op \in {"submat", "eye", "mkLT", "mkUT"}
        q == IF sq THEN r ELSE IF Chance(Sd(s, 2), 1, 2) THEN r ELSE Dim(Sd(s, 3))
        md == IF op = "sqrt" THEN "sq" ELSE mode
        up == op = "mkUT"
        tri == TTri(GTen(Sd(s, 4), SubBatch(Sd(s, 5), B) \o <<r, r>>, mode), up)
        t == CASE kind = "FD" -> Arr(GTen(Sd(s, 4), SubBatch(Sd(s, 5), B), mode))
               [] kind = "VecB" -> Arr(GTen(Sd(s, 4), SubBatch(Sd(s, 5), B) \o <<r>>, mode))
               [] kind = "KrT" -> Kr(KrTFactor(Sd(s, 4), B), KrTFactor(Sd(s, 14), B))
               [] kind = "ArrT" -> Arr(tri)
               [] kind = "LTm" -> IF Chance(Sd(s, 6), 1, 2) THEN Dense(tri) ELSE IF up THEN UT(tri) ELSE LT(tri)
               [] OTHER -> GTerm(Sd(s, 4), kind, r, q, B, md, IF long THEN "any" ELSE pur)
        nan(m) == Ten(m.s, m.d, Force([k \in 1..Len(m.e) |->
                       IF Chance(Sd(s, 100 + k), 1, 3) THEN NaN ELSE m.e[k]]))
    IN  IF op = "isnan" /\ Chance(Sd(s, 6), 2, 3)
        THEN CASE t.k = "Dense" -> [t EXCEPT !.m = nan(t.m)]
               [] t.k = "Const" -> [t EXCEPT !.c = nan(t.c)]
               [] t.k \in {"LT", "UT"} -> [t EXCEPT !.m = TTri(nan(t.m), t.k = "UT")]
               [] OTHER -> t
        ELSE t

(* Batch for a partner of something with batch Bt in a program with batch B. *)
PBatch(s, Bt, B) == LET z == Rnd(Sd(s, 1), 8)
                    IN  IF z <= 2 THEN Bt
                        ELSE IF z = 3 THEN <<>>
                        ELSE IF z <= 5 THEN SubBatch(Sd(s, 2), Bt)
                        ELSE IF Bt = <<>> THEN B
                        ELSE IF z = 6 THEN <<2>> \o Bt
                        ELSE Force([k \in 1..Len(Bt) |-> IF Bt[k] = 1 THEN 2 ELSE Bt[k]])
(* A batch that clashes with Bt. *)
Clash(Bt) == IF Bt = <<>> THEN <<>> ELSE [Bt EXCEPT ![Len(Bt)] = @ + 1]
BatchT(t) == BatchOf(P(t))
MSh(t) == MShape(P(t))

PartnerKind(k, r, q) == IF r # q /\ IsSq(k) THEN "Dense" ELSE k
GPartner(s, kind, r, q, B, mode) ==
    GTerm(Sd(s, 1), IF kind \in {"Sc", "Num", "Vec"} /\ (r # 1 \/ q # 1)
                     THEN (IF kind = "Vec" /\ q = 1 THEN "Vec" ELSE "Dense")
                     ELSE PartnerKind(kind, r, q), r, q, B, mode, "any")

Via(s, op, t) == IF op \in Elementwise \cup {"matmul"} THEN Pick(s, <<"B", "B", "op">>)
                 ELSE IF op \in {"neg", "power", "T", "reshape", "squeeze", "flatten", "diag"}
                 THEN Pick(s, <<"B", "B", "op">>) ELSE "B"

RECURSIVE Divisors(_, _)
Divisors(n, k) == IF k > n THEN <<>> ELSE (IF n % k = 0 THEN <<k>> ELSE <<>>) \o Divisors(n, k + 1)
(* A random shape with n elements. *)
Refactor(s, n) == IF n = 0 THEN Pick(s, <<<<0>>, <<0, 3>>, <<2, 0>>, <<2, 0, 1>>, <<0, 0>>, <<1, 2, 0>>>>) ELSE
                  LET a == Pick(Sd(s, 1), Divisors(n, 1))
                      b == Pick(Sd(s, 2), Divisors(n \div a, 1))
                      z == Rnd(Sd(s, 3), 4)
                  IN  IF z = 0 THEN <<n>> ELSE IF z = 1 THEN <<a, n \div a>>
                      ELSE IF z = 2 THEN <<a, b, n \div (a * b)>> ELSE <<n \div a, a>>

RandIdx(s, n) ==
    LET z == Rnd(Sd(s, 1), 6)
        len == Rnd(Sd(s, 2), 4) + (IF z = 5 THEN 0 ELSE 1)
    IN  IF z <= 2 THEN [form |-> Pick(Sd(s, 3), <<"list", "tuple", "array">>),
                        idx |-> Force([k \in 1..len |-> Rnd(Sd(s, 10 + k), n)])]
        ELSE IF z = 3 THEN [form |-> Pick(Sd(s, 3), <<"list", "array">>),
                            idx |-> Force([k \in 1..len |-> Rnd(Sd(s, 10 + k), 2 * n) - n])]
        ELSE [form |-> Pick(Sd(s, 3), <<"masklist", "masktuple", "maskarray">>),
              idx |-> Force([k \in 1..n |-> IF Chance(Sd(s, 10 + k), 3, 5) \/ k = 1 THEN 1 ELSE 0])]
RandAx(s, rk) == Rnd(s, 2 * rk) - rk

PL(c, xs, refs) == [c |-> c, xs |-> xs, refs |-> refs]
One(c, t, ref) == PL(c, <<t>>, <<ref>>)

(* A low-rank matrix with factors made of columns of those of a low-rank t. *)
RelFactor(s, f, rho) ==
    LET d == Uprank(Den(f))
        n == Len(d.s)
    IN  Arr(TTake(d, n, Force([k \in 1..rho |-> Rnd(Sd(s, k), d.s[n])])))
Rotate(n) == Force([k \in 1..n |-> k % n])
Related(s, t, mode) ==
    LET l == Uprank(Den(t.l))
        r == Uprank(Den(t.r))
        mid == Uprank(Den(t.mid))
        n1 == mid.s[Len(mid.s) - 1]
        n2 == mid.s[Len(mid.s)]
        rho == Rnd(Sd(s, 1), 3) + 1
        neg == TMul(Scal(Pick(Sd(s, 2), <<-1, -1, 1, 2>>)), mid)
        z == Rnd(Sd(s, 3), 4)
        lr(a, b, c) == [k |-> "LR", l |-> a, r |-> b, mid |-> c, rd |-> FALSE, md |-> FALSE]
    IN  IF z = 0 THEN lr(t.l, t.r, Arr(neg))
        ELSE IF z = 1
        THEN lr(Arr(TTake(l, Len(l.s), Rotate(n1))), Arr(TTake(r, Len(r.s), Rotate(n2))),
                Arr(TTake(TTake(neg, Len(mid.s) - 1, Rotate(n1)), Len(mid.s), Rotate(n2))))
        ELSE lr(RelFactor(Sd(s, 4), t.l, rho),
                IF z = 2 THEN RelFactor(Sd(s, 5), t.r, rho)
                ELSE GFactor(Sd(s, 5), MSh(t)[2], rho, <<>>, mode, TRUE),
                Arr(GTen(Sd(s, 6), <<rho, rho>>, mode)))
LowRankish(t) == t.k = "LR" \/ t.k = "Wb"
Relate(s, t, k2, mode) ==
    LET z == Related(Sd(s, 1), IF t.k = "Wb" THEN t.lr ELSE t, mode)
        n == MSh(t)[1]
    IN  IF k2 = "Wb" /\ n = MSh(t)[2] THEN Wb(Diag(GTen(Sd(s, 2), <<n>>, mode)), z) ELSE z

(* Partner for an element-wise operation. *)
EwPartner(s, op, t, k2, B, mode, rej) ==
    LET m == MSh(t)
        bt == BatchT(t)
        bb == PBatch(Sd(s, 1), bt, B)
        z == Rnd(Sd(s, 2), 8)
        md == IF op = "div" THEN (IF Chance(Sd(s, 7), 3, 4) THEN "nz" ELSE mode) ELSE mode
        bro == k2 \in {"Dense", "Arr", "Const", "Zero", "LR", "Kr", "TB"} /\ z <= 1
        big == 1 \in {m[1], m[2]} /\ (m[1] = m[2] \/ ~IsSq(k2)) /\ z \in {2, 3}
        wide == big /\ m = <<1, 1>> /\ IsSq(k2)
        rr == IF big /\ m[1] = 1 THEN Dim(Sd(s, 8)) ELSE IF bro /\ Chance(Sd(s, 3), 1, 2) THEN 1 ELSE m[1]
        qq == IF wide THEN rr ELSE IF big /\ m[2] = 1 THEN Dim(Sd(s, 9))
              ELSE IF bro /\ Chance(Sd(s, 4), 1, 2) THEN 1 ELSE m[2]
        w == Rnd(Sd(s, 5), 3)
    IN  IF rej
        THEN IF w = 0 /\ bt # <<>> THEN GTerm(Sd(s, 6), PartnerKind(k2, m[1], m[2]), m[1], m[2],
                                              Clash(bt), mode, "any")
             ELSE IF w = 1 \/ IsSq(k2)
             THEN LET n == Max2(m[1], m[2]) + 1 IN GTerm(Sd(s, 6), k2, n, n, bb, mode, "any")
             ELSE GTerm(Sd(s, 6), k2, m[1] + 1, m[2], bb, mode, "any")
        ELSE IF k2 \in {"Num", "Sc"} THEN GTerm(Sd(s, 6), k2, 1, 1, B, md, "any")
        ELSE IF op \in {"add", "sub"} /\ LowRankish(t) /\ k2 \in {"LR", "Wb"} /\ Chance(Sd(s, 10), 1, 2)
        THEN Relate(Sd(s, 11), t, k2, mode)
        ELSE GPartner(Sd(s, 6), k2, rr, qq, bb, md)

MaybeTr(s, r, q) == Chance(s, 1, 3)

Self(ref) == <<ref, IF ref = 0 THEN -1 ELSE ref>>      \* -k: the operand at position k once more
(* Something of any of the given kinds. *)
Pool(s, r, q, B, mode) ==
    GPartner(Sd(s, 1), Pick(Sd(s, 2), <<"Arr", "Arr", "Dense", "Diag", "Const", "LT", "Zero">>), r, q,
             SubBatch(Sd(s, 3), B), mode)
Rank1(s, n) == Pick(s, <<Arr(Full(<<n>>, 1)), Arr(Full(<<>>, 2))>>)
MkPlan(s, op, t, ref, k2, B, mode, rej) ==
    LET c == Call(op)
        set(q) == [c EXCEPT !.p = q]
        m == MSh(t)
        bt == BatchT(t)
        off == IF ~rej THEN 0 ELSE IF m[2] > 1 /\ Chance(Sd(s, 1), 1, 2) THEN 1 - m[2] ELSE 1
        low == rej /\ Chance(Sd(s, 2), 1, 4)
    IN
    CASE op = "mkLR" ->
           LET f == Pick(Sd(s, 3), <<"l", "lr", "lm", "lrm">>)
               f2 == IF rej /\ f = "l" THEN "lr" ELSE f
               rm == Pick(Sd(s, 4), <<1, 2, 3>>)
               r == IF low THEN Rank1(Sd(s, 5), m[2])
                    ELSE Pool(Sd(s, 5), IF Chance(Sd(s, 6), 1, 2) THEN m[1] ELSE Dim(Sd(s, 7)),
                              IF f2 = "lr" THEN m[2] + off ELSE Pos1(rm + (IF Chance(Sd(s, 8), 1, 2) THEN off ELSE 0)), B, mode)
               bad == rej /\ Chance(Sd(s, 8), 1, 2)
               md == Pool(Sd(s, 9), m[2] + (IF bad THEN off ELSE 0),
                          IF f2 = "lm" THEN m[2] + (IF rej /\ Chance(Sd(s, 10), 1, 2) THEN off ELSE 0) ELSE rm, B, mode)
               cc == set([P0 EXCEPT !.form = f2])
           IN  CASE f2 = "l" -> PL(cc, <<t>>, <<ref>>)
                 [] f2 = "lr" -> IF ~rej /\ Chance(Sd(s, 11), 1, 6) THEN PL(cc, <<t, t>>, Self(ref))
                                 ELSE PL(cc, <<t, r>>, <<ref, 0>>)
                 [] f2 = "lm" -> PL(cc, <<t, md>>, <<ref, 0>>)
                 [] OTHER -> PL(cc, <<t, r, md>>, <<ref, 0, 0>>)
      [] op = "mkWb" ->
           LET n == m[1] + (IF ~rej THEN 0 ELSE 1)
               y == IF low THEN Pool(Sd(s, 3), m[1], m[1], B, mode)
                    ELSE IF rej /\ bt # <<>> /\ Chance(Sd(s, 5), 1, 2)
                    THEN GTerm(Sd(s, 3), "LR", m[1], m[1], Clash(bt), mode, "any")
                    ELSE GTerm(Sd(s, 3), "LR", n, n, SubBatch(Sd(s, 4), B), mode, "any")
           IN  PL(c, <<t, y>>, <<ref, 0>>)
      [] op = "mkKr" -> IF ~rej /\ Chance(Sd(s, 6), 1, 4) THEN PL(c, <<t, t>>, Self(ref)) ELSE
                        PL(c, <<t, Pool(Sd(s, 3), DimS(Sd(s, 4)), DimS(Sd(s, 5)), B, mode)>>, <<ref, 0>>)
      [] op = "mkTB" ->
           LET rk == Len(bt) + 2
               n == Rnd(Sd(s, 3), 3) + 1
               ax0 == IF Chance(Sd(s, 4), 3, 4) THEN Pick(Sd(s, 5), <<-1, -2>>) ELSE -1 - Rnd(Sd(s, 5), rk)
               y(z) == IF low THEN Rank1(Sd(s, 5), m[2])
                       ELSE IF ax0 < -2 THEN BatchTo(Pool(Sd(s, 10 + z), m[1], m[2], <<>>, mode), bt).t
                       ELSE Pool(Sd(s, 10 + z), IF ax0 = -2 THEN Dim(Sd(s, 20 + z)) ELSE m[1],
                                 IF ax0 = -1 THEN Dim(Sd(s, 20 + z)) ELSE m[2], bt, mode)
               n2 == IF rej THEN 2 ELSE n
           IN  PL(set([P0 EXCEPT !.sh = Force([z \in 1..n2 |-> Pick(Sd(s, 40 + z), <<1, 1, 2, 3>>)]),
                                 !.ax = IF Chance(Sd(s, 6), 1, 4) THEN ax0 + rk ELSE ax0]),
                  Force([z \in 1..n2 |-> IF z = 1 THEN t ELSE y(z)]),
                  Force([z \in 1..n2 |-> IF z = 1 THEN ref ELSE 0]))
      [] op \in {"mkLT", "mkUT"} -> IF rej THEN PL(c, <<Rank1(Sd(s, 3), 2)>>, <<0>>) ELSE PL(c, <<t>>, <<ref>>)
      [] op = "mkDiag" -> IF rej THEN PL(c, <<Arr(Full(<<>>, 2))>>, <<0>>) ELSE PL(c, <<t>>, <<ref>>)
      [] op = "mkConst" ->
           LET cs == ShapeOf(t)
               b == IF rej THEN Clash(cs) ELSE Pick(Sd(s, 3), <<<<>>, <<>>, cs, PBatch(Sd(s, 4), cs, B)>>)
           IN  PL(set([P0 EXCEPT !.sh = IF low THEN Pick(Sd(s, 5), <<<<>>, <<2>>>>)
                                        ELSE b \o <<Dim(Sd(s, 6)), Dim(Sd(s, 7))>>]), <<t>>, <<ref>>)
      [] op = "mkZero" -> PL(set([P0 EXCEPT !.sh = IF rej THEN Pick(Sd(s, 5), <<<<>>, <<2>>>>)
                                                   ELSE GBatch(Sd(s, 4)) \o <<Dim(Sd(s, 6)), Dim(Sd(s, 7))>>]),
                             <<t>>, <<ref>>)
      [] OTHER -> PL(c, <<t>>, <<ref>>)

PlanFor(s, op, t, ref, k2, B, mode, rej) ==
    LET c == Call(op)
        rk == Len(ShapeOf(t))
        S == ShapeOf(t)
        set(q) == [c EXCEPT !.p = q]
        rkP == Len(ShapeOf(P(t)))
        m == MSh(t)
        bt == BatchT(t)
        bb == IF rej /\ Chance(Sd(s, 20), 1, 3) THEN Clash(bt) ELSE PBatch(Sd(s, 20), bt, B)
        via == Via(Sd(s, 22), op, t)
        ta == Chance(Sd(s, 23), 1, 3)
        tb == Chance(Sd(s, 24), 1, 3)
        tc == Chance(Sd(s, 25), 1, 3)
        noTr == op = "matmul" /\ via = "op"
        inn == IF ta /\ ~noTr THEN m[1] ELSE m[2]
        off == IF ~rej THEN 0
               ELSE IF inn > 1 /\ Chance(Sd(s, 26), 1, 2) THEN 1 - inn   \* dimension one would broadcast
               ELSE Pick(Sd(s, 21), <<1, 1, 2>>)
    IN
    CASE op \in Elementwise ->
           LET y == EwPartner(Sd(s, 1), op, t, k2, B, mode, rej)
               flip == Chance(Sd(s, 2), 1, 4) /\ op # "div"
               cc == set([P0 EXCEPT !.via = via])
           IN  IF ~rej /\ Chance(Sd(s, 3), 1, 16) THEN PL(cc, <<t, t>>, Self(ref))
               ELSE IF flip THEN PL(cc, <<y, t>>, <<0, ref>>) ELSE PL(cc, <<t, y>>, <<ref, 0>>)
      [] op \in {"matmul", "matmul_diag", "mm3"} ->
           LET xa == ta /\ ~noTr
               xb == tb /\ ~noTr
               inner == (IF xa THEN m[1] ELSE m[2]) + off
               outer == IF op = "matmul_diag" THEN (IF xa THEN m[2] ELSE m[1])
                        ELSE IF IsSq(k2) THEN inner ELSE Dim(Sd(s, 1))
               kk == IF op = "matmul_diag" /\ inner # outer THEN PartnerKind(k2, 1, 2) ELSE k2
               y == IF k2 \in {"Num", "Sc"} THEN GTerm(Sd(s, 3), k2, 1, 1, B, mode, "any")
                    ELSE GPartner(Sd(s, 3), kk, IF xb THEN outer ELSE inner,
                                  IF xb THEN inner ELSE outer, bb, mode)
               z == GPartner(Sd(s, 4), Pick(Sd(s, 5), <<"Dense", "Diag", "LR", "Arr", "Const", "LT">>),
                             outer, outer, SubBatch(Sd(s, 6), B), "tiny")
               c2 == set([P0 EXCEPT !.ta = xa, !.tb = xb, !.via = IF op = "matmul" THEN via ELSE "B",
                                    !.tc = IF op = "mm3" THEN tc ELSE FALSE])
           IN  IF op = "mm3" /\ ~rej /\ m[1] = m[2] /\ Chance(Sd(s, 8), 1, 8)
               THEN PL(c2, <<t, GPartner(Sd(s, 9), k2, m[1], m[1], bb, "tiny"), t>>,
                       <<ref, 0, IF ref = 0 THEN -1 ELSE ref>>)
               ELSE IF op = "mm3" THEN PL(c2, <<t, y, z>>, <<ref, 0, 0>>)
               ELSE IF ~rej /\ m[1] = m[2] /\ Chance(Sd(s, 7), 1, 16) THEN PL(c2, <<t, t>>, Self(ref))
               ELSE PL(c2, <<t, y>>, <<ref, 0>>)
      [] op = "kron" ->
           LET y == GPartner(Sd(s, 1), k2, DimS(Sd(s, 2)), DimS(Sd(s, 3)), bb, mode)
           IN  IF Chance(Sd(s, 4), 1, 16) /\ Prod(m) <= 9 THEN PL(c, <<t, t>>, Self(ref)) ELSE PL(c, <<t, y>>, <<ref, 0>>)
      [] op \in {"sum", "mean"} ->
           One(set([P0 EXCEPT !.ax = IF rej THEN Pick(Sd(s, 1), <<rk, -rk - 1>>)
                                     ELSE IF Chance(Sd(s, 2), 1, 4) THEN NoAx ELSE RandAx(Sd(s, 1), rk)]),
               t, ref)
      [] op = "take" ->
           LET ax0 == RandAx(Sd(s, 1), rk)
               n == S[PosAx(ax0, rk)]
               ax == IF rej /\ Chance(Sd(s, 7), 1, 5) THEN Pick(Sd(s, 8), <<rk, -rk - 1>>) ELSE ax0
               ix == RandIdx(Sd(s, 2), n)
               ix2 == IF rej THEN [form |-> Pick(Sd(s, 3), <<"array", "list", "tuple">>),
                                   idx |-> Pick(Sd(s, 4), <<<<0, n + 1>>, <<n>>, <<0, -n - 1>>>>)] ELSE ix
               flat == rej /\ Chance(Sd(s, 5), 1, 4)
           IN  One(set([P0 EXCEPT !.ax = ax, !.form = IF flat THEN Pick(Sd(s, 6), <<"deep", "deepmask">>) ELSE ix2.form,
                                  !.idx = IF flat THEN Force([k \in 1..n |-> 0]) ELSE ix2.idx]), t, ref)
      [] op = "submat" ->
           LET ix == IF rej THEN [form |-> Pick(Sd(s, 3), <<"array", "list", "tuple">>),
                                  idx |-> Pick(Sd(s, 4), <<<<0, m[1] + 1>>, <<m[1]>>, <<0, -m[1] - 1>>>>)]
                     ELSE RandIdx(Sd(s, 2), m[1])
               flat == rej /\ Chance(Sd(s, 5), 1, 3)
           IN  One(set([P0 EXCEPT !.form = IF flat THEN Pick(Sd(s, 6), <<"deep", "deepmask">>) ELSE ix.form,
                                  !.idx = IF flat THEN Force([k \in 1..m[1] |-> 0]) ELSE ix.idx]), t, ref)
      [] op = "index" ->
           LET n == Rnd(Sd(s, 1), rk) + 1
           IN  One(set([P0 EXCEPT !.idx = Force([k \in 1..n |->
                        IF Chance(Sd(s, 10 + k), 1, 3) THEN 77
                        ELSE Rnd(Sd(s, 30 + k), 2 * S[k]) - S[k]])]), t, ref)
      [] op = "reshape" ->
           One(set([P0 EXCEPT !.sh = IF rej THEN <<Prod(S) + 1>> ELSE Refactor(Sd(s, 1), Prod(S)),
                              !.via = IF rej THEN via ELSE Pick(Sd(s, 5), <<"B", "op", "list", "tuple", "minus", "opminus">>)]), t, ref)
      [] op \in {"flatten", "squeeze", "neg", "tr", "T", "diag"} -> One(set([P0 EXCEPT !.via = via]), t, ref)
      [] op = "power" -> One(set([P0 EXCEPT !.n = Pick(Sd(s, 1), <<1, 2, 2, 3, 3, 0, -1>>), !.via = via]), t, ref)
      [] op = "broadcast_to" ->
           LET z == Rnd(Sd(s, 1), 4)
               S2 == Force([k \in 1..rk |-> IF S[k] = 1 /\ z > 0 /\ (k <= rk - 2 \/ z = 3)
                                            THEN Dim(Sd(s, 1 + k)) ELSE S[k]])
               S3 == IF Chance(Sd(s, 9), 1, 2) THEN Pick(Sd(s, 8), <<<<2>>, <<1>>, <<2, 2>>>>) \o S2 ELSE S2
           IN  One(set([P0 EXCEPT !.sh = IF ~rej THEN S3 ELSE Pick(Sd(s, 7), <<[S EXCEPT ![rk] = @ + 1], [S EXCEPT ![rk] = 1], [S EXCEPT ![rk - 1] = 1],
                                                     [S EXCEPT ![1] = 1], Tail(S)>>)]), t, ref)
      [] op = "broadcast_batch_to" ->
           LET z == Rnd(Sd(s, 1), 3)
               S2 == Force([k \in 1..Len(bt) |-> IF bt[k] = 1 THEN Dim(Sd(s, 1 + k)) ELSE bt[k]])
               S3 == IF z = 0 THEN <<2>> \o S2 ELSE IF z = 1 THEN <<1, 3>> \o S2 ELSE S2
           IN  One(set([P0 EXCEPT !.sh = IF ~rej THEN S3 ELSE IF bt = <<>> THEN bt ELSE Pick(Sd(s, 7), <<Clash(bt), Tail(bt), [bt EXCEPT ![Len(bt)] = 1]>>)]), t, ref)
      [] op = "tile" -> One(set([P0 EXCEPT !.sh = Force([k \in 1..(IF ~rej THEN rk ELSE rk + Pick(Sd(s, 9), <<-1, 1, 1>>)) |-> Pick(Sd(s, k), <<1, 1, 2, 3>>)])]), t, ref)
      [] op = "concat" ->
           LET ax0 == RandAx(Sd(s, 1), rk)
               w == PosAx(ax0, rk)
               ax == IF rej /\ Chance(Sd(s, 7), 1, 5) THEN Pick(Sd(s, 8), <<rk, -rk - 1>>) ELSE ax0
               two == Chance(Sd(s, 2), 2, 3)
               other(z) == IF t.k = "TB" /\ Chance(Sd(s, 40 + z), 2, 3)
                           THEN GTB(Sd(s, 30 + z), IF w = rk - 1 THEN Dim(Sd(s, 31 + z)) ELSE m[1],
                                    IF w = rk THEN Dim(Sd(s, 31 + z)) ELSE m[2], bt, mode)
                           ELSE LET offr == IF ~rej THEN 0 ELSE IF m[1] > 1 /\ Chance(Sd(s, 36), 1, 2) THEN 1 - m[1] ELSE 1
                                    r == IF w = rk - 1 THEN Dim(Sd(s, 31 + z)) ELSE m[1] + offr
                                    q == IF w = rk THEN Dim(Sd(s, 31 + z)) ELSE m[2]
                                    b2 == IF w <= rk - 2 THEN [bt EXCEPT ![w] = Dim(Sd(s, 33 + z))] ELSE bt
                                    k0 == PartnerKind(Pick(Sd(s, 32 + z), <<k2, "Dense", "Diag", "Const", "Zero", "Arr">>), r, q)
                                    k1 == IF k0 \in {"Num", "Sc", "Vec", "TB", "LR", "Kr", "Wb"} THEN "Dense" ELSE k0
                                    full == GTerm(Sd(s, 34 + z), k1, r, q, <<>>, mode, "any")
                                IN  BroadTo(full, b2 \o <<r, q>>).t
           IN  IF ~rej /\ Chance(Sd(s, 3), 1, 10)
               THEN PL(set([P0 EXCEPT !.ax = ax]), <<t, other(100), t>>, <<ref, 0, IF ref = 0 THEN -1 ELSE ref>>)
               ELSE IF two THEN PL(set([P0 EXCEPT !.ax = ax]), <<t, other(100)>>, <<ref, 0>>)
               ELSE PL(set([P0 EXCEPT !.ax = ax]), <<t, other(100), other(200)>>, <<ref, 0, 0>>)
      [] op = "block" ->
           LET R == Pick(Sd(s, 1), <<1, 2, 2, 2, 3>>)
               C == IF Chance(Sd(s, 2), 2, 3) THEN R ELSE Pick(Sd(s, 3), <<1, 2, 3>>)
               diagish == R = C /\ Chance(Sd(s, 4), 1, 2)
               zeros == Chance(Sd(s, 4), 1, 5)
               r(i) == IF i = 1 THEN m[1] ELSE Pick(Sd(s, 10 + i), <<1, 2, 2>>)
               q(j) == IF j = 1 THEN m[2] ELSE IF diagish THEN r(j) ELSE Pick(Sd(s, 20 + j), <<1, 2, 2>>)
               kind(i, j) == IF zeros THEN "Zero"
                             ELSE IF diagish THEN (IF i = j THEN Pick(Sd(s, 30 + i), <<"Diag", "Diag", "Zero">>)
                                                   ELSE IF Chance(Sd(s, 50 + 4 * i + j), 1, 12) THEN "Dense" ELSE "Zero")
                             ELSE PartnerKind(Pick(Sd(s, 70 + 4 * i + j),
                                    <<"Dense", "Zero", "Diag", "Const", "LR", "LT", "Kr", "Wb", "Arr", "Zero">>), r(i), q(j))
               n == R * C
               xs == Force([z \in 1..n |->
                        IF z = 1 THEN t
                        ELSE LET i == (z - 1) \div C + 1
                                 j == ((z - 1) % C) + 1
                             IN  GPartner(Sd(s, 90 + z), kind(i, j), r(i), q(j), SubBatch(Sd(s, 110 + z), B), mode)])
               four == <<<<1, 2>>, <<3, 4>>>>
               again == IF ref = 0 THEN -1 ELSE ref
           IN  IF Chance(Sd(s, 5), 1, 16)
               THEN PL(set([P0 EXCEPT !.lay = four]), <<t, t, t, t>>, <<ref, again, again, again>>)
               ELSE PL(set([P0 EXCEPT !.lay = Force([i \in 1..R |-> Force([j \in 1..C |-> (i - 1) * C + j])])]),
                  xs, Force([z \in 1..n |-> IF z = 1 THEN ref ELSE 0]))
      [] op = "block_diag" ->
           LET n == Pick(Sd(s, 1), <<1, 2, 2, 3>>)
               same == Chance(Sd(s, 2), 1, 2)
               xs == Force([z \in 1..n |->
                        IF z = 1 THEN t
                        ELSE GPartner(Sd(s, 90 + z),
                               IF same /\ t.k \in {"Diag", "Zero"} THEN t.k
                               ELSE Pick(Sd(s, 70 + z), <<"Dense", "Zero", "Diag", "Const", "LR", "LT", "Arr", k2>>),
                               Pick(Sd(s, 80 + z), <<1, 2, 2>>), Pick(Sd(s, 83 + z), <<1, 2, 2>>),
                               IF rej THEN Clash(bt) ELSE SubBatch(Sd(s, 110 + z), B), mode)])
           IN  IF ~rej /\ Chance(Sd(s, 3), 1, 12) THEN PL(c, <<t, t>>, Self(ref))
               ELSE PL(c, xs, Force([z \in 1..n |-> IF z = 1 THEN ref ELSE 0]))
      [] op = "cholesky_solve" /\ t.k = "Kr" ->
           LET y(z, u) == GPartner(Sd(s, 1 + z), Pick(Sd(s, 3 + z), <<"Dense", "Diag", "LT", "Const", "LR">>), MSh(u)[2],
                                   IF Chance(Sd(s, 5 + z), 1, 2) THEN MSh(u)[2] ELSE DimS(Sd(s, 7 + z)), SubBatch(Sd(s, 9 + z), B), "tiny")
           IN  PL(c, <<t, Kr(y(0, t.l), y(20, t.r))>>, <<ref, 0>>)
      [] op \in {"solve", "trisolve", "cholesky_solve"} ->
           LET cc == IF op # "trisolve" THEN c ELSE set([P0 EXCEPT !.form = Pick(Sd(s, 11), <<"", "", "lower", "upper">>)])
               k0 == IF k2 \in {"Num", "Sc"} THEN "Dense" ELSE k2
               y == GPartner(Sd(s, 1), IF op = "trisolve" THEN Pick(Sd(s, 2), <<"Dense", "Arr", "Diag", "LR", "Dense">>) ELSE k0,
                             Pos1(m[2] + off), IF IsSq(k0) THEN Pos1(m[2] + off) ELSE DimS(Sd(s, 3)),
                             IF rej /\ off = 0 THEN Clash(bt) ELSE SubBatch(Sd(s, 4), B), "gen")
           IN  IF ~rej /\ Chance(Sd(s, 5), 1, 16) THEN PL(cc, <<t, t>>, Self(ref)) ELSE PL(cc, <<t, y>>, <<ref, 0>>)
      [] op \in {"iqf", "iqf_diag"} ->
           LET q == DimS(Sd(s, 1))
               three == Chance(Sd(s, 2), 1, 2)
               y(z) == LET kk == Pick(Sd(s, 5 + z), <<"Dense", "Arr", "Arr", "Dense", k2>>)
                           mm == Pos1(m[1] + (IF rej THEN off ELSE 0))
                           qq == IF IsSq(kk) /\ rej THEN mm ELSE IF z = 0 \/ op = "iqf_diag" THEN q ELSE DimS(Sd(s, 9))
                       IN  GPartner(Sd(s, 3 + z), kk, mm, qq, SubBatch(Sd(s, 7 + z), B), "gen")
           IN  IF ~rej /\ Chance(Sd(s, 11), 1, 16) THEN PL(c, <<t, t>>, Self(ref))
               ELSE IF three /\ Chance(Sd(s, 10), 1, 4) THEN PL(c, <<t, y(0), y(0)>>, <<ref, 0, -2>>)
               ELSE IF three THEN PL(c, <<t, y(0), y(20)>>, <<ref, 0, 0>>) ELSE PL(c, <<t, y(0)>>, <<ref, 0>>)
      [] op = "ratio" ->
           LET k0 == Pick(Sd(s, 1), PdK)
               y == GTerm(Sd(s, 2), k0, m[1], m[1], SubBatch(Sd(s, 3), B), "tiny", "spd")
           IN  IF Chance(Sd(s, 4), 1, 8) THEN PL(c, <<t, t>>, Self(ref)) ELSE PL(c, <<t, y>>, <<ref, 0>>)
      [] op \in Mk -> MkPlan(s, op, t, ref, k2, B, mode, rej)
      [] op \in ShapeOps ->
           LET n == IF op \in {"shape_batch_at", "shape_matrix_at"} THEN 1 ELSE IF op = "shape_compatible" THEN 2 ELSE Rnd(Sd(s, 1), 3) + 1
               y(z) == EwPartner(Sd(s, 2 + z), op, t, Pick(Sd(s, 12 + z), Kinds2), B, mode,
                                 (rej \/ (op = "shape_compatible" /\ Chance(Sd(s, 4), 1, 2))) /\ z = n)
               ln == IF op = "shape_matrix_at" THEN 2 ELSE Len(bt)
               ni == IF ln = 0 THEN 0 ELSE Rnd(Sd(s, 3), 2) + 1
               ix == Force([k \in 1..ni |-> Rnd(Sd(s, 30 + k), 2 * ln) - ln])
           IN  PL(set([P0 EXCEPT !.idx = IF rej THEN <<ln>> ELSE ix]),
                  Force([z \in 1..n |-> IF z = 1 THEN t ELSE y(z)]), Force([z \in 1..n |-> IF z = 1 THEN ref ELSE 0]))
      [] op = "sample" -> One(set([P0 EXCEPT !.n = Pick(Sd(s, 1), <<1, 2>>)]), t, ref)
      [] op = "fill_diag" -> One(set([P0 EXCEPT !.n = Dim(Sd(s, 1))]), t, ref)
      [] op = "uprank" -> One(set([P0 EXCEPT !.n = IF rej THEN Pick(Sd(s, 1), <<0, 1, 3>>) ELSE 2]), t, ref)
      [] op = "cast" -> One(set([P0 EXCEPT !.form = Pick(Sd(s, 1), <<"f4", "f8">>)]), t, ref)
      [] OTHER -> One(c, t, ref)

(* ---------------------------------------------------- size bounds (32 bits) *)
Sat == 1000000000
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Sat \div b THEN Sat ELSE a * b
SatAdd(a, b) == IF a > Sat - b THEN Sat ELSE a + b
NoSpecial(t) == \A k \in 1..Len(t.e) : ~Special(t.e[k])
TMag(t) == IF ~NoSpecial(t) THEN Sat ELSE Max2(MaxAbs(t), t.d)
RECURSIVE Mag(_)
Mag(t) == CASE t.k \in {"Arr", "Num", "Dense", "LT", "UT"} -> TMag(t.m)
            [] t.k = "Zero" -> 1
            [] t.k = "Diag" -> TMag(t.v)
            [] t.k = "Const" -> TMag(t.c)
            [] t.k = "LR" -> SatMul(SatMul(Mag(t.l), Mag(t.r)),
                                    SatMul(Mag(t.mid), MSh(t.l)[2] * MSh(t.r)[2]))
            [] t.k = "Wb" -> SatMul(2, SatMul(Mag(t.dg), Mag(t.lr)))
            [] t.k = "Kr" -> SatMul(Mag(t.l), Mag(t.r))
            [] t.k = "TB" -> FoldLeft(LAMBDA acc, x : Max2(acc, Mag(x)), 1, t.b)
            [] OTHER -> Sat
(* Determinants can be computed within 32 bits, and in time. *)
DetSafe(d) ==
    LET n == d.s[Len(d.s)]
        row(i) == FoldLeft(LAMBDA acc, k : acc + Abs(d.e[(i - 1) * n + k]), 0, Force([k \in 1..n |-> k]))
        bound(b) == FoldLeft(LAMBDA acc, i : SatMul(acc, Max2(1, row((b - 1) * n + i))), 1, Force([i \in 1..n |-> i]))
    IN  n <= 6 /\ (d.s[Len(d.s) - 1] = n => \A b \in 1..NBatch(d) : bound(b) < Sat)
InvSafe(t) == LET d == Uprank(Den(t))
              IN  /\ DetSafe(d) /\ MaxAbs(d) <= 40 /\ d.d <= 4
                  /\ SquareM(t) /\ InvParts(t) /\ LcmDets(d) <= 400
                  /\ LET i == TInv(d) IN MaxAbs(i) <= 4000 /\ i.d <= 400
Linear == {"inv", "pd_inv", "solve", "trisolve", "cholesky_solve", "iqf", "iqf_diag", "ratio",
           "schur", "pd_schur"}
FacOps == {"cholesky", "root", "sample", "logdet"}
ProdMag(xs) == FoldLeft(LAMBDA acc, x : SatMul(acc, SatMul(2, Max2(1, Mag(x)))), 1, xs)
SumSize(xs) == FoldLeft(LAMBDA acc, x : SatAdd(acc, Prod(ShapeOf(x))), 1, xs)
DivSafe(xs) ==
    LET y == Den(xs[2])
        m == SatLcm(y.e)
    IN  m < 2000 /\ SatMul(SatMul(Mag(xs[1]), SatMul(m, y.d)), 64) < Sat
Safe(c, xs) ==
    IF \E k \in 1..Len(xs) : xs[k].k \in {"Unsup", "Irr", "Wild"} THEN FALSE ELSE
    CASE c.op \in {"add", "sub", "mul", "kron", "matmul_diag", "mm3", "matmul", "div"} ->
             /\ SatMul(ProdMag(xs), 64) < Sat /\ SumSize(xs) <= 700
             /\ (c.op = "div" => DivSafe(xs))
      [] c.op = "power" /\ c.p.n < 0 -> HasZeros(xs[1]) \/ (NoZero(Den(xs[1])) /\ DivSafe(<<xs[1], xs[1]>>))
      [] c.op \in {"power"} -> SatMul(Mag(xs[1]), SatMul(Mag(xs[1]), Mag(xs[1]))) < Sat
      [] c.op \in Linear -> /\ \A k \in 1..Len(xs) : Mag(xs[k]) < 30000
                            /\ (\A k \in 2..Len(xs) : MaxAbs(Den(xs[k])) <= 60)
                            /\ SumSize(xs) <= 200
                            /\ InvSafe(xs[1]) /\ (c.op = "ratio" => InvSafe(xs[2]))
      [] c.op \in FacOps -> Mag(xs[1]) < 30000 /\ MaxAbs(Den(xs[1])) <= 100 /\ Den(xs[1]).d <= 8 /\ DetSafe(Uprank(Den(xs[1])))
      [] c.op = "isnan" -> TRUE
      [] c.op = "mkLR" -> Mag(MkLR(c.p, xs)) < 100000 /\ SumSize(xs) <= 300
      [] c.op = "mkKr" -> ProdMag(xs) < 1000000 /\ SumSize(xs) <= 300
      [] c.op \in Mk -> (\A k \in 1..Len(xs) : Mag(xs[k]) < Sat \div 1000) /\ SumSize(xs) <= 300
      [] OTHER -> \A k \in 1..Len(xs) : Mag(xs[k]) < Sat \div 1000
Settled(c, xs) == Safe(c, xs)
=============================================================================
