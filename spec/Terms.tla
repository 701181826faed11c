-------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* Structured-matrix terms: the abstract state of one matrix object, its   *)
(* denotation (the dense array it stands for) and its reported shape.      *)
(*                                                                         *)
(*   Num, Arr        Python number / raw array of any rank  (field m)      *)
(*   Zero            s = full shape                                        *)
(*   Dense, LT, UT   m = tensor of rank >= 2                               *)
(*   Diag            v = tensor of rank >= 1                               *)
(*   Const           c = batch of constants, r rows, q columns             *)
(*   LR              left l, right r, middle mid (rd, md: by default)      *)
(*   Wb              diagonal dg plus low-rank lr                          *)
(*   Kr              Kronecker product of l and r                          *)
(*   TB              blocks b repeated n times along axis ax               *)
(*   Unsup           the operation is deliberately not provided            *)
(***************************************************************************)
EXTENDS Tensor

MatKinds == {"Zero", "Dense", "Diag", "Const", "LT", "UT", "LR", "Wb", "Kr", "TB"}
Raw(t)        == t.k = "Arr" \/ t.k = "Num"
Structured(t) == ~Raw(t) /\ t.k # "Dense"

Arr(m)         == [k |-> "Arr", m |-> m]
Zero(s)        == [k |-> "Zero", s |-> s]
Dense(m)       == [k |-> "Dense", m |-> m]
LT(m)          == [k |-> "LT", m |-> m]
UT(m)          == [k |-> "UT", m |-> m]
Diag(v)        == [k |-> "Diag", v |-> v]
Const(c, r, q) == [k |-> "Const", c |-> c, r |-> r, q |-> q]
LR(l, r, mid)  == [k |-> "LR", l |-> l, r |-> r, mid |-> mid, rd |-> FALSE, md |-> FALSE]
Wb(dg, lr)     == [k |-> "Wb", dg |-> dg, lr |-> lr]
Kr(l, r)       == [k |-> "Kr", l |-> l, r |-> r]
TB(b, n, ax)   == [k |-> "TB", b |-> b, n |-> n, ax |-> ax]
Unsup          == [k |-> "Unsup"]

(* Promotion of numbers and arrays to matrices. *)
Uprank(m) == IF Len(m.s) = 0 THEN [m EXCEPT !.s = <<1, 1>>]
             ELSE IF Len(m.s) = 1 THEN [m EXCEPT !.s = m.s \o <<1>>] ELSE m
P(t) == IF ~Raw(t) THEN t
        ELSE IF Len(t.m.s) = 0
             THEN IF t.k = "Num" /\ t.m.e[1] = 0 THEN Zero(<<1, 1>>) ELSE Const(t.m, 1, 1)
             ELSE Dense(Uprank(t.m))

DropNeg(s, ax) == DropAt(s, Len(s) + ax + 1)     \* ax is negative
MaxLen(ss) == FoldLeft(LAMBDA acc, s : Max2(acc, Len(s)), 0, ss)
MapSeq(f(_), s) == Force([k \in 1..Len(s) |-> f(s[k])])

(* Shapes as the library defines them. *)
RECURSIVE ShapeOf(_)
MShape(t) == Last2(ShapeOf(t))
BatchOf(t) == Lead(ShapeOf(t))
TBAxis(ax, rank) == IF ax >= 0 THEN ax - rank ELSE ax
ShapeOf(t) ==
    CASE t.k \in {"Arr", "Num"} -> t.m.s
      [] t.k = "Zero"  -> t.s
      [] t.k \in {"Dense", "LT", "UT"} -> t.m.s
      [] t.k = "Diag"  -> t.v.s \o <<t.v.s[Len(t.v.s)]>>
      [] t.k = "Const" -> t.c.s \o <<t.r, t.q>>
      [] t.k = "LR"    -> BShapes(<<BatchOf(P(t.l)), BatchOf(P(t.r)), BatchOf(P(t.mid))>>)
                          \o <<MShape(P(t.l))[1], MShape(P(t.r))[1]>>
      [] t.k = "Wb"    -> BShape(ShapeOf(t.dg), ShapeOf(t.lr))
      [] t.k = "Kr"    -> LET a == ShapeOf(P(t.l))
                              b == ShapeOf(P(t.r))
                          IN  BShape(Lead(a), Lead(b))
                              \o <<a[Len(a) - 1] * b[Len(b) - 1], a[Len(a)] * b[Len(b)]>>
      [] t.k = "TB"    -> LET ss  == MapSeq(ShapeOf, t.b)
                              rk  == MaxLen(ss)
                              ps  == MapSeq(LAMBDA s : PadL(s, rk), ss)
                              ax  == TBAxis(t.ax, rk) + rk + 1
                              oth == BShapes(MapSeq(LAMBDA s : DropAt(s, ax), ps))
                              tot == FoldLeft(LAMBDA acc, k : acc + t.n[k] * ps[k][ax], 0,
                                              Force([k \in 1..Len(ps) |-> k]))
                          IN  SubSeq(oth, 1, ax - 1) \o <<tot>> \o SubSeq(oth, ax, Len(oth))

(* The dense array a term denotes. *)
RECURSIVE Den(_)
Den(t) ==
    CASE t.k \in {"Arr", "Num"} -> t.m
      [] t.k = "Zero"  -> Full(t.s, 0)
      [] t.k \in {"Dense", "LT", "UT"} -> t.m
      [] t.k = "Diag"  -> TDiagM(t.v)
      [] t.k = "Const" -> TBroadcast(TExpandEnd(t.c, 2), t.c.s \o <<t.r, t.q>>)
      [] t.k = "LR"    -> TMatmul(TMatmul(Uprank(Den(t.l)), Uprank(Den(t.mid))), TTr(Uprank(Den(t.r))))
      [] t.k = "Wb"    -> TAdd(Den(t.dg), Den(t.lr))
      [] t.k = "Kr"    -> TKron(Uprank(Den(t.l)), Uprank(Den(t.r)))
      [] t.k = "TB"    -> LET S   == ShapeOf(t)
                              rk  == Len(S)
                              ax  == TBAxis(t.ax, rk) + rk + 1
                              one(j) == LET d == Den(t.b[j])
                                            p == PadL(d.s, rk)
                                            w == TBroadcast(d, [S EXCEPT ![ax] = p[ax]])
                                        IN  TTileAx(w, ax, t.n[j])
                          IN  TConcat(Force([j \in 1..Len(t.b) |-> one(j)]), ax)

(* The rank a low-rank term declares. *)
LRRank(t) == IF t.md THEN MShape(P(t.l))[2] ELSE Min2(MShape(P(t.mid))[1], MShape(P(t.mid))[2])

(* Honesty of a term: the entries that the type promises to be zero are zero *)
(* and factors fit together.                                                  *)
RECURSIVE Honest(_)
Honest(t) ==
    CASE t.k = "LT" -> TTri(t.m, FALSE) = t.m
      [] t.k = "UT" -> TTri(t.m, TRUE) = t.m
      [] t.k = "LR" -> /\ Honest(t.l) /\ Honest(t.r) /\ Honest(t.mid)
                       /\ MShape(P(t.l))[2] = MShape(P(t.mid))[1]
                       /\ MShape(P(t.r))[2] = MShape(P(t.mid))[2]
      [] t.k = "Wb" -> /\ t.dg.k = "Diag" /\ t.lr.k = "LR" /\ Honest(t.lr)
                       /\ MShape(t.dg) = MShape(t.lr)
      [] t.k = "Kr" -> Honest(t.l) /\ Honest(t.r)
      [] t.k = "TB" -> \A j \in 1..Len(t.b) : Honest(t.b[j])
      [] OTHER -> TRUE

(* All kinds that occur in a term. *)
RECURSIVE Kinds(_)
Kinds(t) == CASE t.k = "LR" -> {"LR"} \cup Kinds(t.l) \cup Kinds(t.r) \cup Kinds(t.mid)
              [] t.k = "Wb" -> {"Wb"} \cup Kinds(t.lr)
              [] t.k = "Kr" -> {"Kr"} \cup Kinds(t.l) \cup Kinds(t.r)
              [] t.k = "TB" -> {"TB"} \cup UNION {Kinds(t.b[j]) : j \in 1..Len(t.b)}
              [] OTHER -> {t.k}

(* Whether a low-rank part has fractions that floating point rounds.         *)
RECURSIVE Rounds(_)
Rounds(d) == IF d <= 1 THEN FALSE ELSE IF d % 2 = 1 THEN TRUE ELSE Rounds(d \div 2)
Rough(t) == CASE t.k = "LR" -> Rounds(Den(t).d) \/ Rounds(Den(t.mid).d)
              [] t.k = "Wb" -> Rounds(Den(t.lr).d) \/ Rounds(Den(t.lr.mid).d)
              [] OTHER -> FALSE

(* Whether converting the term to dense may itself have to give up structure *)
(* of nested factors (and hence warn, the first time only).                  *)
RECURSIVE DeepDense(_)
DeepDense(t) == CASE t.k = "LR" -> Structured(t.l) \/ Structured(t.r)
                                   \/ (Structured(t.mid) /\ t.mid.k # "Diag")
                  [] t.k = "Wb" -> DeepDense(t.lr)
                  [] t.k = "Kr" -> DeepDense(t.l) \/ DeepDense(t.r)
                  [] t.k = "TB" -> TRUE
                  [] OTHER -> FALSE

(* A scalar constant that is zero can be taken for the number zero, the      *)
(* product with which is a matrix of zeros: structure that is not predicted. *)
RECURSIVE ZeroScalar(_)
ZeroScalar(t) == CASE t.k = "Const" -> t.c.s = <<>> /\ t.c.e = <<0>>
                   [] t.k = "LR" -> ZeroScalar(t.l) \/ ZeroScalar(t.r) \/ ZeroScalar(t.mid)
                   [] t.k = "Wb" -> ZeroScalar(t.lr)
                   [] t.k = "Kr" -> ZeroScalar(t.l) \/ ZeroScalar(t.r)
                   [] t.k = "TB" -> \E j \in 1..Len(t.b) : ZeroScalar(t.b[j])
                   [] OTHER -> FALSE

(* Terms that carry numbers which are not known, or nothing at all. *)
RECURSIVE HasBad(_)
HasBad(t) == CASE t.k \in {"Arr", "Num", "Dense", "LT", "UT"} -> IsBad(t.m)
               [] t.k = "Diag" -> IsBad(t.v)
               [] t.k = "Const" -> IsBad(t.c)
               [] t.k = "LR" -> HasBad(t.l) \/ HasBad(t.r) \/ HasBad(t.mid)
               [] t.k = "Wb" -> HasBad(t.dg) \/ HasBad(t.lr)
               [] t.k = "Kr" -> HasBad(t.l) \/ HasBad(t.r)
               [] t.k = "TB" -> \E j \in 1..Len(t.b) : HasBad(t.b[j])
               [] t.k \in {"Other", "Unsup", "Irr"} -> TRUE
               [] OTHER -> FALSE
(* Parts that fit together: without this, nothing can be computed. *)
RECURSIVE WF(_)
WF(t) ==
    CASE t.k = "Zero" -> Len(t.s) >= 2
      [] t.k \in {"Dense", "LT", "UT"} -> Len(t.m.s) >= 2
      [] t.k = "Diag" -> Len(t.v.s) >= 1
      [] t.k = "LR" -> /\ WF(t.l) /\ WF(t.r) /\ WF(t.mid)
                       /\ MShape(P(t.l))[2] = MShape(P(t.mid))[1]
                       /\ MShape(P(t.r))[2] = MShape(P(t.mid))[2]
                       /\ BOks(<<BatchOf(P(t.l)), BatchOf(P(t.r)), BatchOf(P(t.mid))>>)
      [] t.k = "Wb" -> /\ t.dg.k = "Diag" /\ t.lr.k = "LR" /\ WF(t.dg) /\ WF(t.lr)
                       /\ MShape(t.dg) = MShape(t.lr) /\ BOk(BatchOf(t.dg), BatchOf(t.lr))
      [] t.k = "Kr" -> WF(t.l) /\ WF(t.r) /\ BOk(BatchOf(P(t.l)), BatchOf(P(t.r)))
      [] t.k = "TB" -> LET ss == MapSeq(ShapeOf, t.b)
                           rk == MaxLen(ss)
                           ax == TBAxis(t.ax, rk) + rk + 1
                       IN  /\ t.b # <<>> /\ \A j \in 1..Len(t.b) : WF(t.b[j]) /\ Len(ss[j]) >= 2
                           /\ 1 <= ax /\ ax <= rk
                           /\ BOks(MapSeq(LAMBDA s : DropAt(PadL(s, rk), ax), ss))
      [] OTHER -> TRUE

(* Trees of kinds, not distinguishing raw arrays from dense matrices. *)
Flat(k) == IF k \in {"Arr", "Num"} THEN "Dense" ELSE k
RECURSIVE SameKind(_, _)
SameKind(e, o) ==
    \* more structure than predicted is welcome
    \/ o.k = "Zero" /\ ~HasBad(e) /\ MaxAbs(Den(e)) = 0
    \/ Flat(e.k) = "Dense"
    \/ Flat(e.k) = Flat(o.k) /\
       CASE e.k = "Kr" -> SameKind(e.l, o.l) /\ SameKind(e.r, o.r)
         [] e.k = "LR" -> SameKind(e.l, o.l) /\ SameKind(e.r, o.r)
         [] e.k = "Wb" -> SameKind(e.lr, o.lr)
         [] e.k = "TB" -> Len(e.b) = Len(o.b) /\ \A j \in 1..Len(e.b) : SameKind(e.b[j], o.b[j])
         [] OTHER -> TRUE
=============================================================================
