------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Exact N-dimensional rational arrays.                                    *)
(*                                                                         *)
(* A tensor is [s |-> shape, d |-> denominator, e |-> entries] where e is  *)
(* the row-major sequence of integer numerators over the one common        *)
(* denominator d >= 1.  Three numerators stand for the IEEE special values *)
(* (NaN, +Inf, -Inf); they only occur in results of divisions by zero and  *)
(* in inputs of isnan.  A tensor the driver could not represent has        *)
(* s = <<-1>> ("bad"): it equals nothing.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt, FiniteSets

NaN  == 1000000007
PInf == 1000000009
NInf == -1000000009
Special(x) == x = NaN \/ x = PInf \/ x = NInf

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
GcdN(a, b) == Gcd(Abs(a), Abs(b))
Lcm(a, b) == (a \div GcdN(a, b)) * b

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[Len(s)] * Prod(SubSeq(s, 1, Len(s) - 1))

Force(f) == TLCEval(f)
Seq1(n, v) == Force([k \in 1..n |-> v])

(* (Folds evaluate strictly, recursive operators by need.) *)
GcdSeq(e, g0) == FoldLeft(LAMBDA g, x : IF g = 1 \/ Special(x) THEN g ELSE GcdN(x, g), g0, e)

(* Lowest common terms. *)
Norm(t) == IF t.d = 1 THEN t
           ELSE LET g == GcdSeq(t.e, t.d)
                IN  IF g = 1 THEN t
                    ELSE [s |-> t.s, d |-> t.d \div g,
                          e |-> Force([k \in 1..Len(t.e) |->
                                  IF Special(t.e[k]) THEN t.e[k] ELSE t.e[k] \div g])]

Ten(s, d, e) == Norm([s |-> s, d |-> d, e |-> e])
Scal(n)      == [s |-> <<>>, d |-> 1, e |-> <<n>>]
Rat(n, d)    == Norm([s |-> <<>>, d |-> d, e |-> <<n>>])
Full(s, v)   == [s |-> s, d |-> 1, e |-> Seq1(Prod(s), v)]
BadT         == [s |-> <<-1>>, d |-> 1, e |-> <<>>]
IsBad(t)     == t.s = <<-1>>

TRank(t) == Len(t.s)
Last2(s) == SubSeq(s, Len(s) - 1, Len(s))
Lead(s)  == SubSeq(s, 1, Len(s) - 2)      \* batch part of a shape

TEq(a, b) == LET x == Norm(a) y == Norm(b) IN x = y

(* ------------------------------------------------------------ broadcasting *)
PadL(s, n) == Seq1(n - Len(s), 1) \o s
BDim(x, y) == IF x = 1 THEN y ELSE x
BOk(s, t)  == LET n == Max2(Len(s), Len(t))
                  a == PadL(s, n)
                  b == PadL(t, n)
              IN  \A k \in 1..n : a[k] = b[k] \/ a[k] = 1 \/ b[k] = 1
BShape(s, t) == LET n == Max2(Len(s), Len(t))
                    a == PadL(s, n)
                    b == PadL(t, n)
                IN  Force([k \in 1..n |-> BDim(a[k], b[k])])
RECURSIVE BShapes(_)
BShapes(ss) == IF Len(ss) = 0 THEN <<>>
               ELSE IF Len(ss) = 1 THEN ss[1]
               ELSE BShapes(<<BShape(ss[1], ss[2])>> \o SubSeq(ss, 3, Len(ss)))
RECURSIVE BOks(_)
BOks(ss) == IF Len(ss) <= 1 THEN TRUE
            ELSE BOk(ss[1], ss[2])
                 /\ BOks(<<BShape(ss[1], ss[2])>> \o SubSeq(ss, 3, Len(ss)))

(* For a shape s that broadcasts to S: the sequence that maps every          *)
(* (0-based, row-major) flat position in S, plus one, to a flat position in s *)
RECURSIVE BIdxR(_, _, _, _, _)
BIdxR(s, S, j, stride, acc) ==
    IF j = 0 THEN acc
    ELSE LET n  == Len(acc)
             st == IF s[j] = 1 THEN 0 ELSE stride
         IN  BIdxR(s, S, j - 1, stride * s[j],
                   Force([k \in 1..(S[j] * n) |->
                        acc[((k - 1) % n) + 1] + ((k - 1) \div n) * st]))
BIdx(s, S) == IF Prod(S) = 0 THEN <<>> ELSE
              IF s = S THEN Force([k \in 1..Prod(S) |-> k - 1])
              ELSE BIdxR(PadL(s, Len(S)), S, Len(S), 1, <<0>>)

TBroadcast(t, S) == IF t.s = S THEN t
                    ELSE IF Prod(S) = 0 THEN [s |-> S, d |-> 1, e |-> <<>>]
                    ELSE LET ix == BIdx(t.s, S)
                         IN  [s |-> S, d |-> t.d,
                              e |-> Force([k \in 1..Len(ix) |-> t.e[ix[k] + 1]])]

(* --------------------------------------------------------------- pointwise *)
TNeg(t) == [t EXCEPT !.e = Force([k \in 1..Len(t.e) |-> -t.e[k]])]
TAbs(t) == [t EXCEPT !.e = Force([k \in 1..Len(t.e) |-> Abs(t.e[k])])]

TAdd(a, b) ==
    LET S  == BShape(a.s, b.s)
        l  == Lcm(a.d, b.d)
        fa == l \div a.d
        fb == l \div b.d
        ia == BIdx(a.s, S)
        ib == BIdx(b.s, S)
    IN  Ten(S, l, Force([k \in 1..Len(ia) |-> a.e[ia[k] + 1] * fa + b.e[ib[k] + 1] * fb]))
TSub(a, b) == TAdd(a, TNeg(b))

TMul(a, b) ==
    LET S  == BShape(a.s, b.s)
        ia == BIdx(a.s, S)
        ib == BIdx(b.s, S)
    IN  Ten(S, a.d * b.d, Force([k \in 1..Len(ia) |-> a.e[ia[k] + 1] * b.e[ib[k] + 1]]))

LcmNZ(e) == FoldLeft(LAMBDA acc, x : IF x = 0 THEN acc ELSE Lcm(acc, Abs(x)), 1, e)
(* Element-wise division with the IEEE conventions for zero divisors. *)
TDiv(a, b) ==
    LET S  == BShape(a.s, b.s)
        ia == BIdx(a.s, S)
        ib == BIdx(b.s, S)
        m  == LcmNZ(b.e)
        q(x, y) == IF y = 0 THEN (IF x = 0 THEN NaN ELSE IF x > 0 THEN PInf ELSE NInf)
                   ELSE x * b.d * (m \div y)
    IN  Ten(S, a.d * m, Force([k \in 1..Len(ia) |-> q(a.e[ia[k] + 1], b.e[ib[k] + 1])]))

RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)
(* Element-wise natural power (0^0 = 1, as in NumPy). *)
TPow(t, n) == LET p == IF n < 0 THEN -n ELSE n
                  r == Ten(t.s, IPow(t.d, p), Force([k \in 1..Len(t.e) |-> IPow(t.e[k], p)]))
              IN  IF n < 0 THEN TDiv(Full(t.s, 1), r) ELSE r

RECURSIVE ISqrtR(_, _)
ISqrtR(x, r) == IF r * r >= x THEN r ELSE ISqrtR(x, r + 1)
ISqrt(x) == ISqrtR(x, 0)
IsSquare(x) == x >= 0 /\ ISqrt(x) * ISqrt(x) = x
TSquares(t) == IsSquare(t.d) /\ \A k \in 1..Len(t.e) : IsSquare(t.e[k])
TSqrt(t) == Ten(t.s, ISqrt(t.d), Force([k \in 1..Len(t.e) |-> ISqrt(t.e[k])]))

(* ------------------------------------------------------------------ layout *)
TReshape(t, S) == [t EXCEPT !.s = S]
TTr(t) == LET n == Len(t.s)
              r == t.s[n - 1]
              c == t.s[n]
              m == r * c
              S == Lead(t.s) \o <<c, r>>
          IN  [s |-> S, d |-> t.d,
               e |-> Force([k \in 1..Len(t.e) |->
                        LET q == k - 1
                            b == q \div m
                            p == q % m
                        IN  t.e[b * m + (p % r) * c + (p \div r) + 1]])]

RECURSIVE SProd(_, _, _)
SProd(s, i, j) == IF i > j THEN 1 ELSE s[i] * SProd(s, i + 1, j)

(* Select 0-based positions idx along (1-based) axis ax. *)
TTake(t, ax, idx) ==
    LET n   == Len(t.s)
        inn == SProd(t.s, ax + 1, n)
        dim == t.s[ax]
        L   == Len(idx)
        S   == [t.s EXCEPT ![ax] = L]
        tot == Prod(S)
    IN  Ten(S, t.d, Force([k \in 1..tot |->
              LET q == k - 1
                  o == q \div (L * inn)
                  i == (q \div inn) % L
                  r == q % inn
              IN  t.e[(o * dim + idx[i + 1]) * inn + r + 1]]))

RECURSIVE SumStride(_, _, _, _)
SumStride(e, p, st, n) == IF n = 0 THEN 0 ELSE e[p] + SumStride(e, p + st, st, n - 1)

DropAt(s, ax) == SubSeq(s, 1, ax - 1) \o SubSeq(s, ax + 1, Len(s))
TSum(t, ax) ==
    LET n   == Len(t.s)
        inn == SProd(t.s, ax + 1, n)
        dim == t.s[ax]
        S   == DropAt(t.s, ax)
    IN  Ten(S, t.d, Force([k \in 1..Prod(S) |->
              LET q == k - 1
              IN  SumStride(t.e, (q \div inn) * dim * inn + (q % inn) + 1, inn, dim)]))
TSumAll(t) == Ten(<<>>, t.d, <<SumStride(t.e, 1, 1, Len(t.e))>>)
TScaleR(t, n, d) == Ten(t.s, t.d * d, Force([k \in 1..Len(t.e) |-> t.e[k] * n]))

TExpand(t, ax) == [t EXCEPT !.s = SubSeq(t.s, 1, ax - 1) \o <<1>> \o SubSeq(t.s, ax, Len(t.s))]
TExpandEnd(t, k) == [t EXCEPT !.s = t.s \o Seq1(k, 1)]

RECURSIVE LcmD(_)
LcmD(ts) == IF ts = <<>> THEN 1 ELSE Lcm(Head(ts).d, LcmD(Tail(ts)))
RECURSIVE SumDim(_, _)
SumDim(ts, ax) == IF ts = <<>> THEN 0 ELSE Head(ts).s[ax] + SumDim(Tail(ts), ax)
(* Which tensor (and where in it) holds position p along the joined axis. *)
RECURSIVE Locate(_, _, _, _)
Locate(ts, ax, i, p) == IF p < ts[i].s[ax] THEN <<i, p>>
                        ELSE Locate(ts, ax, i + 1, p - ts[i].s[ax])
TConcat(ts, ax) ==
    LET L   == LcmD(ts)
        n   == Len(ts[1].s)
        inn == SProd(ts[1].s, ax + 1, n)
        tot == SumDim(ts, ax)
        S   == [ts[1].s EXCEPT ![ax] = tot]
        loc == Force([p \in 1..tot |-> Locate(ts, ax, 1, p - 1)])
    IN  Ten(S, L, Force([k \in 1..Prod(S) |->
              LET q == k - 1
                  o == q \div (tot * inn)
                  w == loc[((q \div inn) % tot) + 1]
                  r == q % inn
                  t == ts[w[1]]
              IN  t.e[(o * t.s[ax] + w[2]) * inn + r + 1] * (L \div t.d)]))
TTileAx(t, ax, rep) ==
    IF rep = 1 THEN t
    ELSE TTake(t, ax, Force([k \in 1..(rep * t.s[ax]) |-> (k - 1) % t.s[ax]]))
RECURSIVE TTileR(_, _, _)
TTileR(t, reps, ax) == IF ax = 0 THEN t ELSE TTileR(TTileAx(t, ax, reps[ax]), reps, ax - 1)
TTile(t, reps) == LET n  == Max2(Len(reps), Len(t.s))
                      t2 == [t EXCEPT !.s = PadL(t.s, n)]
                  IN  TTileR(t2, PadL(reps, n), n)

SqueezeS(s) == SelectSeq(s, LAMBDA x : x # 1)
TSqueeze(t) == [t EXCEPT !.s = SqueezeS(t.s)]

(* --------------------------------------------------------- linear algebra *)
RECURSIVE Dot(_, _, _, _, _, _, _)
Dot(x, i, sx, y, j, sy, n) ==
    IF n = 0 THEN 0 ELSE x[i] * y[j] + Dot(x, i + sx, sx, y, j + sy, sy, n - 1)

TMatmul(a, b) ==
    LET la == Len(a.s)
        lb == Len(b.s)
        r  == a.s[la - 1]
        m  == a.s[la]
        c  == b.s[lb]
        BS == BShape(Lead(a.s), Lead(b.s))
        ia == BIdx(Lead(a.s), BS)
        ib == BIdx(Lead(b.s), BS)
        S  == BS \o <<r, c>>
    IN  Ten(S, a.d * b.d, Force([k \in 1..Prod(S) |->
              LET q == k - 1
                  z == q \div (r * c)
                  i == (q \div c) % r
                  j == q % c
              IN  Dot(a.e, ia[z + 1] * r * m + i * m + 1, 1,
                      b.e, ib[z + 1] * m * c + j + 1, c, m)]))

(* Kronecker product over the last two axes, broadcasting the others. *)
TKron(a, b) ==
    LET la == Len(a.s)
        lb == Len(b.s)
        ar == a.s[la - 1]
        ac == a.s[la]
        br == b.s[lb - 1]
        bc == b.s[lb]
        BS == BShape(Lead(a.s), Lead(b.s))
        ia == BIdx(Lead(a.s), BS)
        ib == BIdx(Lead(b.s), BS)
        R  == ar * br
        C  == ac * bc
        S  == BS \o <<R, C>>
    IN  Ten(S, a.d * b.d, Force([k \in 1..Prod(S) |->
              LET q == k - 1
                  z == q \div (R * C)
                  i == (q \div C) % R
                  j == q % C
              IN  a.e[ia[z + 1] * ar * ac + (i \div br) * ac + (j \div bc) + 1]
                  * b.e[ib[z + 1] * br * bc + (i % br) * bc + (j % bc) + 1]]))

(* Diagonal of the last two axes. *)
TDiagV(t) == LET n == Len(t.s)
                 r == t.s[n - 1]
                 c == t.s[n]
                 l == Min2(r, c)
                 S == Lead(t.s) \o <<l>>
             IN  Ten(S, t.d, Force([k \in 1..Prod(S) |->
                       t.e[((k - 1) \div l) * r * c + ((k - 1) % l) * (c + 1) + 1]]))
(* Matrix with the last axis on the diagonal. *)
TDiagM(t) == LET n == t.s[Len(t.s)]
                 S == t.s \o <<n>>
             IN  [s |-> S, d |-> t.d,
                  e |-> Force([k \in 1..Prod(S) |->
                     LET q == k - 1
                         i == (q \div n) % n
                         j == q % n
                     IN  IF i = j THEN t.e[(q \div (n * n)) * n + i + 1] ELSE 0])]
TEye(n) == TDiagM(Full(<<n>>, 1))

(* Keep the lower (up = FALSE) or upper triangle. *)
TTri(t, up) == LET n == Len(t.s)
                   r == t.s[n - 1]
                   c == t.s[n]
               IN  Ten(t.s, t.d, Force([k \in 1..Len(t.e) |->
                      LET q == (k - 1) % (r * c)
                          i == q \div c
                          j == q % c
                      IN  IF (up /\ i <= j) \/ (~up /\ i >= j) THEN t.e[k] ELSE 0]))

(* Determinants and adjugates by cofactors of the (integer) numerator matrix *)
(* held at offset o with row stride n; R and C are the remaining row and     *)
(* column numbers.                                                           *)
RECURSIVE DetM(_, _, _, _, _)
RECURSIVE DetC(_, _, _, _, _, _)
DetM(e, o, n, R, C) == IF R = <<>> THEN 1
                       ELSE IF Len(R) = 1 THEN e[o + R[1] * n + C[1] + 1]
                       ELSE IF Len(R) = 2 THEN
                            e[o + R[1] * n + C[1] + 1] * e[o + R[2] * n + C[2] + 1]
                            - e[o + R[1] * n + C[2] + 1] * e[o + R[2] * n + C[1] + 1]
                       ELSE DetC(e, o, n, R, C, 1)
DetC(e, o, n, R, C, k) ==
    IF k > Len(C) THEN 0
    ELSE LET x == e[o + R[1] * n + C[k] + 1]
             rest == DetC(e, o, n, R, C, k + 1)
         IN  IF x = 0 THEN rest
             ELSE (IF k % 2 = 1 THEN 1 ELSE -1) * x
                  * DetM(e, o, n, SubSeq(R, 2, Len(R)), DropAt(C, k)) + rest
Iota(n) == Force([k \in 1..n |-> k - 1])
DropVal(n, v) == SelectSeq(Iota(n), LAMBDA x : x # v)

NBatch(t) == Prod(Lead(t.s))
(* Determinants of all matrices in the batch (of the numerators; the true     *)
(* value divides by d^n).                                                    *)
TDetN(t) == LET n == t.s[Len(t.s)]
            IN  Force([b \in 1..NBatch(t) |-> DetM(t.e, (b - 1) * n * n, n, Iota(n), Iota(n))])
TDet(t) == LET n == t.s[Len(t.s)] IN Ten(Lead(t.s), IPow(t.d, n), TDetN(t))
NonSing(t) == LET ds == TDetN(t) IN \A k \in 1..Len(ds) : ds[k] # 0
TInv(t) ==
    LET n  == t.s[Len(t.s)]
        ds == TDetN(t)
        m  == LcmNZ(ds)
    IN  Ten(t.s, m, Force([k \in 1..Len(t.e) |->
              LET q == k - 1
                  b == q \div (n * n)
                  i == (q \div n) % n
                  j == q % n
                  cof == (IF (i + j) % 2 = 0 THEN 1 ELSE -1)
                         * DetM(t.e, b * n * n, n, DropVal(n, j), DropVal(n, i))
              IN  cof * (m \div ds[b + 1]) * t.d]))

(* Positive definiteness by Sylvester's criterion, and symmetry. *)
TSym(t) == t.s[Len(t.s)] = t.s[Len(t.s) - 1] /\ TTr(t) = t
TPD(t) == LET n == t.s[Len(t.s)]
          IN  TSym(t)
              /\ \A b \in 1..NBatch(t) : \A k \in 1..n :
                    DetM(t.e, (b - 1) * n * n, n, Iota(k), Iota(k)) > 0

MaxAbs(t) == FoldLeft(LAMBDA acc, x : Max2(acc, Abs(x)), 0, t.e)
=============================================================================
