-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: every call recorded from the real library, replayed on the *)
(* store of projected matrices.  A verdict is total: each event is judged   *)
(* by every clause, failing clauses are collected and printed at the end   *)
(* of the trace.                                                           *)
(*                                                                         *)
(*   new      constructors denote what was passed in                       *)
(*   value    the dense value of the result is the specified one           *)
(*   error    a defined operation returned                                 *)
(*   reject   ill-fitting operands raised                                  *)
(*   kind     the result has the structure the algebra predicts            *)
(*   lrank    a low-rank result declares no more rank than predicted       *)
(*   honest   the result is what its type claims (zero patterns, factors,  *)
(*            and its dense value is the denotation of its parts)          *)
(*   shape    reported shape and rank                                      *)
(*   warn     structure is given up if and only if a warning is issued     *)
(*   immut    no register (and no filled cache) has changed                *)
(*   cache    what was cached is the cached quantity of its owner          *)
(*   dtype    data types are preserved                                     *)
(***************************************************************************)
EXTENDS Plan

TRACES == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l, regs, dts, fails, stats
vars == <<tr, l, regs, dts, fails, stats>>

T0 == TRACES[tr].evs

(* Arguments of operators are evaluated by need, over and over again inside    *)
(* function constructors.  Bound variables are evaluated once, whence the sets   *)
(* with one element below.                                                     *)

(* ------------------------------------------------------------------ clauses *)
Whole(t) == ~HasBad(t) /\ WF(t)
Computable(t) == Whole(t) /\ Mag(t) < Sat
RECURSIVE BadZeroPattern(_)
BadZeroPattern(t) ==
    CASE t.k \in {"LT", "UT"} -> IsBad(t.m) /\ t.m.e # <<>>
      [] t.k = "LR" -> BadZeroPattern(t.l) \/ BadZeroPattern(t.r) \/ BadZeroPattern(t.mid)
      [] t.k = "Kr" -> BadZeroPattern(t.l) \/ BadZeroPattern(t.r)
      [] t.k = "Wb" -> BadZeroPattern(t.lr)
      [] OTHER -> FALSE

ArrayOps == {"dense", "to_numpy", "diag", "diag_extract", "trace", "shape", "shape_batch", "shape_matrix",
             "rank", "logdet", "iqf_diag", "ratio", "describe", "isabstract", "isnan", "reshape", "flatten",
             "squeeze", "index", "one", "zero"} \cup ShapeOps
(* Matrices stay matrices: these operations never hand back plain arrays for them. *)
MatrixOps == {"tr", "T", "abs", "add", "sub", "mul", "div", "neg", "matmul", "mm3", "kron", "block", "broadcast_batch_to",
              "broadcast_to", "cast", "cholesky_solve", "trisolve", "concat", "tile", "eye", "inv", "pd_inv", "schur",
              "pd_schur", "ones", "zeros", "power", "root", "sqrt", "submat", "take", "uprank"} \cup Mk
KindOk(c, xs, d, o, sem) ==
    IF c.op \in MatrixOps /\ Raw(o) /\ \E k \in 1..Len(xs) : ~Raw(xs[k]) THEN FALSE ELSE
    CASE d.k = "Unsup" -> TRUE
      [] c.op \in ArrayOps -> Raw(o)
      [] d.k = "Irr" -> IF c.op = "root" THEN Flat(d.as) = Flat(o.k) ELSE d.like.k = "Unsup" \/ SameKind(d.like, o)
      [] (d.k = "LR" /\ o.k = "Zero") \/ (d.k = "Zero" /\ o.k = "LR") ->
           \* sums of low-rank matrices that vanish may or may not be noticed
           c.op \in {"add", "sub"} /\ MaxAbs(sem) = 0
      [] OTHER -> SameKind(d, o)
Factor == {"cholesky", "sample"}
SemShape(op, sem) == sem.s

Fine(m) == m.d > 1500
CacheOk(a) ==
    LET t == a.of
        is(m) == a.v = m \/ Fine(m)
    IN  IF ~Computable(t) THEN TRUE
        ELSE CASE a.slot = "dense" -> is(Den(t))
               [] a.slot = "cholesky" -> (MaxAbs(Den(t)) <= 100 => is(Den(t)))
               [] a.slot = "schur" -> (InvSafe(t) => is(Sem(Call("schur"), <<t>>)))

IntOps == {"add", "sub", "mul", "matmul", "mm3", "matmul_diag", "kron", "sum", "trace", "diag", "take", "submat", "tr",
           "neg", "abs", "dense", "concat", "block", "block_diag", "tile", "broadcast_to", "ones", "zeros", "eye", "one", "zero"}
DtOk(ev, xs, ds) ==
    LET D0 == UNION {ds[k] : k \in 1..Len(ds)}
        zero == \E k \in 1..Len(xs) : xs[k].k = "Num" /\ xs[k].m.e = <<0>>      \* becomes a zero matrix of its own type
        \* (nested constants become arrays of their own type before they are multiplied)
        plain == \A k \in 1..Len(xs) : "num" \in ds[k] => xs[k].k \in {"Num", "Const"}
        D == IF ~zero /\ (\A k \in 1..Len(xs) : xs[k].k # "Zero") /\ ((ev.op = "mul" /\ plain) \/ "f8" \in D0) THEN D0 \ {"num"} ELSE D0
        res == {ev.dts[k] : k \in 1..Len(ev.dts)} \ {"num"}
        expect == IF ev.op = "cast" THEN ev.p.form
                  ELSE IF D = {"f8"} THEN "f8" ELSE IF D = {"f4"} THEN "f4"
                  ELSE IF D = {"i8"} /\ ev.op \in IntOps /\ (\A k \in 1..Len(xs) : xs[k].k = "Num" => xs[k].m.d = 1) THEN "i8"
                  ELSE IF D = {"f4", "f8"} /\ (\A k \in 1..Len(xs) : Kinds(xs[k]) \cap {"Zero", "LR", "Wb"} = {}) THEN "f8"
                  ELSE "any"
    IN  IF ev.op \in {"isnan", "shape", "shape_batch", "shape_matrix", "rank", "describe", "isabstract"} \cup ShapeOps \/ expect = "any" THEN TRUE
        \* divisions by Python numbers may widen
        ELSE IF ev.op = "mean" /\ ~Raw(ev.t) THEN TRUE
        \* sums of scalar constants multiply by a count
        ELSE IF ev.op \in {"sum", "mean", "matmul_diag"} /\ "Const" \in Kinds(xs[1]) /\ expect = "f4" THEN TRUE
        ELSE IF ev.op \in Factor \cup {"root"} /\ "Const" \in Kinds(xs[1]) THEN TRUE
        \* Cholesky decompositions of single-precision arrays are double precision
        ELSE IF ev.op \in Factor \cup {"iqf", "iqf_diag", "ratio", "pd_inv", "pd_schur", "logdet"} /\ expect # "f8" THEN TRUE
        \* ... which the remembered Schur complement of an earlier call passes on
        ELSE IF ev.op \in Linear /\ expect = "f4" /\ "Wb" \in Kinds(xs[1]) /\ l > Len(xs) + 1 THEN TRUE
        \* the dense value has the data type that is reported
        ELSE IF ev.vdt \notin {"?", expect} THEN FALSE
        ELSE ev.dt = expect /\ (expect \in {"f8", "i8"} \/ res = {expect})

(* Values that are too fine to be told apart exactly are not judged. *)
TooFine(ev, sem) == IF ev.pf = "f4" THEN sem.d > 12
                    ELSE sem.d > 1500 \/ (sem.d > 12 /\ SatMul(sem.d, SatAdd(sem.d, MaxAbs(sem))) > 15000000)
(* Signs of infinities depend on signs of zeros, which are not modelled. *)
AbsInf(t) == CHOOSE r \in {[u EXCEPT !.e = Force([k \in 1..Len(u.e) |->
                                   IF u.e[k] = NInf THEN PInf ELSE u.e[k]])] : u \in {t}} : TRUE
SameVal(c, v, sem) == v = sem \/ (c.op = "div" /\ AbsInf(v) = AbsInf(sem))

Name(q, n) == IF q THEN <<>> ELSE <<n>>

JudgeOk(ev, c, xs, ds, d, sem) ==
    LET o == ev.t
        may == d.w \/ \E k \in 1..Len(xs) : DeepDense(xs[k])
        rough == c.op \in {"add", "sub", "matmul", "mm3"} /\ \E k \in 1..Len(xs) : Rough(xs[k])
        \* what is remembered (Cholesky factors, Schur complements) warns once
        fresh == \A k \in 1..(l - 1) : T0[k].e = "new"
        must == d.w /\ (fresh \/ ~(c.op \in Factor \cup {"ratio", "logdet", "iqf", "iqf_diag"}
                                   \/ (c.op \in Linear /\ \E k \in 1..Len(xs) : "Wb" \in Kinds(xs[k]))))
                /\ ~\E k \in 1..Len(xs) : ZeroScalar(xs[k])
    IN  IF ev.out = "err" THEN Name(d.t.k = "Unsup", "error")
    ELSE Name(ev.nv \/ TooFine(ev, sem) \/ SameVal(c, ev.v, sem), "value")
         \* (columns without elements are not told apart)
         \* (computed inverses in single precision are not recognised as equal)
         \* (nor are sums of fractions recognised as zero)
         \o Name(Prod(sem.s) = 0 \/ rough \/ (ev.pf = "f4" /\ c.op \in Linear /\ "Wb" \in Kinds(xs[1])) \/ KindOk(c, xs, d.t, o, sem), "kind")
         \* which of many columns of the same size are matched up is a matter of sorting
         \o Name(~rough /\ d.t.k = "LR" /\ o.k = "LR" /\ Prod(sem.s) > 0 /\ LRRank(d.t) <= 8 => o.rank <= LRRank(d.t), "lrank")
         \o Name(c.op \in Factor \/ ev.shp = SemShape(c.op, sem), "shape")
         \o Name(d.t.k = "Unsup" \/ (d.t.k = "Irr" /\ c.op # "root" /\ d.t.like.k = "Unsup") \/ ((must => ev.w) /\ (ev.w => may)), "warn")
         \o Name(DtOk(ev, xs, ds), "dtype")

Judge(ev, xs, ds) ==
    LET c == [op |-> ev.op, p |-> ev.p]
        usable == (\A k \in 1..Len(xs) : Whole(xs[k])) /\ Safe(c, xs)
        \* zeros that were computed need not be exactly zero
        touchy == \/ c.op = "div" /\ T0[ev.args[2]].e # "new" /\ ~NoZero(Den(xs[2]))
                  \/ c.op = "power" /\ c.p.n < 0 /\ T0[ev.args[1]].e # "new" /\ ~NoZero(Den(xs[1]))
        pre0 == IF usable /\ ~touchy THEN Pre(c, xs) ELSE "skip"
        \* the known defect is only looked at where it is documented
        pre == IF pre0 = "known" /\ TRACES[tr].strict THEN "ok" ELSE pre0
        immut == Name(ev.mut = <<>>, "immut")
        cache == Name(\A k \in 1..Len(ev.audit) : CacheOk(ev.audit[k]), "cache")
        own == IF ev.out # "val" THEN <<>>
               ELSE \* what can be said about a result by itself
                    LET o == ev.t
                    IN  Name(/\ ~BadZeroPattern(o)
                             /\ (HasBad(o) \/ WF(o))
                             /\ (ev.op \notin {"cholesky", "sample", "root", "logdet"} /\ Computable(o)
                                 => Honest(o) /\ (ev.nv \/ ev.v = Den(o) \/ TooFine(ev, Den(o)))), "honest")
                        \o Name(/\ ev.rk = Len(ev.shp)
                                /\ (Computable(o) => ev.shp = ShapeOf(o)), "shape")
                        \o Name(o.k = "LR" => ~Whole(o) \/ o.rank = LRRank(o), "lrank")
        rest == CASE pre = "ok" -> CHOOSE r \in {JudgeOk(ev, c, xs, ds, d, sem) : d \in {Do(c, xs)}, sem \in {Sem(c, xs)}} : TRUE
                  [] pre = "reject" -> Name(ev.out = "err" /\ ev.err \notin {"RecursionError", "Timeout"}, "reject")
                  [] OTHER -> <<>>
    IN  [f |-> immut \o cache \o own \o rest, pre |-> pre]

JudgeNew(ev) ==
    LET o == ev.t
        w == ev.want
    IN  IF ev.out = "err" THEN [f |-> <<"new">>, pre |-> "new"] ELSE
        [f |-> Name(/\ Whole(o) /\ SameKind(w, o)
                    /\ ev.v = Den(w)
                    /\ Honest(o) /\ Den(o) = Den(w)
                    /\ (w.k = "LR" => o.rank = LRRank(w) /\ Den(o.l) = Den(w.l) /\ Den(o.r) = Den(w.r)
                                      /\ Den(o.mid) = Den(w.mid)), "new")
              \o Name(ev.shp = ShapeOf(w) /\ ev.rk = Len(ev.shp), "shape")
              \o Name(w.k = "Num" \/ ev.dt = ev.wdt, "dtype")
              \o Name(ev.mut = <<>>, "immut"),
         pre |-> "new"]

Outcome(ev) == IF ev.out # "val" THEN [k |-> "Unsup"] ELSE ev.t
DtsOf(ev) == IF ev.out # "val" THEN {} ELSE {ev.dts[k] : k \in 1..Len(ev.dts)}

Init == /\ tr \in 1..Len(TRACES)
        /\ l = 1 /\ regs = <<>> /\ dts = <<>> /\ fails = <<>>
        /\ stats = [ok |-> 0, reject |-> 0, free |-> 0, skip |-> 0, new |-> 0, known |-> 0]
Step(z) ==
    \/ /\ l <= Len(T0)
       /\ \E ev \in {T0[l]} :
          \E xs \in {[k \in 1..Len(ev.args) |-> regs[ev.args[k]]]} :
          \E ds \in {[k \in 1..Len(ev.args) |-> dts[ev.args[k]]]} :
          \E j \in {IF ev.e = "new" THEN JudgeNew(ev) ELSE Judge(ev, xs, ds)} :
              /\ fails' = fails \o Force([k \in 1..Len(j.f) |-> <<l, ev.op, j.f[k]>>])
              /\ stats' = [stats EXCEPT ![j.pre] = @ + 1]
              /\ regs' = Append(regs, Outcome(ev))
              /\ dts' = Append(dts, DtsOf(ev))
       /\ l' = l + 1
       /\ UNCHANGED tr
    \/ /\ l = Len(T0) + 1
       /\ PrintT("@@" \o ToJson([tid |-> TRACES[tr].tid, line |-> tr, fails |-> fails, stats |-> stats]))
       /\ l' = l + 1
       /\ UNCHANGED <<tr, regs, dts, fails, stats>>
Spec == Init /\ [][Step(0)]_vars
=============================================================================
