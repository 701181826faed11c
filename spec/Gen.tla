--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The machine that drives the implementation: a store of matrices (regs)  *)
(* grown by calls.  Every state is determined by the program number, so a  *)
(* breadth-first search enumerates the programs first .. first + count - 1 *)
(* of a profile; each behaviour is printed as one JSON program.             *)
(***************************************************************************)
EXTENDS Plan

NOps == Len(CFG.ops)

VARIABLES tid, step, regs, evs
vars == <<tid, step, regs, evs>>

E == tid - 1
Op0 == CFG.ops[(E % NOps) + 1]
KA == OpKinds(Op0)
K1 == KA[((E \div NOps) % Len(KA)) + 1]
K2 == CFG.k2[((E \div (NOps * Len(KA))) % Len(CFG.k2)) + 1]
S0 == <<H1(CFG.seed * 37 + 11, tid % 40009, (tid \div 40009) + 3), H2(tid % 40009, CFG.seed * 91 + 17, 29)>>
B0 == IF CFG.batch = "full" THEN GBatchF(Sd(S0, 1)) ELSE IF CFG.batch = "none" THEN <<>>
      ELSE IF CFG.batch = "one" THEN Pick(Sd(S0, 1), <<<<>>, <<>>, <<>>, <<2>>, <<3>>, <<4>>>>) ELSE GBatch(Sd(S0, 1))
Mode0 == Pick(Sd(S0, 2), <<"gen", "gen", "gen", "tiny", "nz", "pos">>)
Prec0 == Pick(Sd(S0, 3), CFG.prec)       \* "f8", "f4" or "mix"

Good(pl, rej) == (\A k \in 1..Len(pl.xs) : ~HasBad(pl.xs[k])) /\ Safe(pl.c, pl.xs) /\ Pre(pl.c, pl.xs) = (IF rej THEN "reject" ELSE "ok")
NoPlan == [c |-> Call("none"), xs |-> <<>>, refs |-> <<>>]

RECURSIVE First(_)
First(j) ==
    IF j > 12 THEN NoPlan
    ELSE LET s == Sd(S0, 100 + j)
             t == FirstTerm(Sd(s, 1), Op0, K1, IF j > 8 THEN <<>> ELSE B0, IF j > 6 THEN "tiny" ELSE Mode0)
             pl == IF Raw(t) /\ Op0 \notin Elementwise \cup {"matmul", "mm3", "matmul_diag", "kron", "fill_diag"}
                      /\ Op0 \notin Mk \cup ShapeOps \cup {"uprank"}
                      /\ Len(t.m.s) < 2 THEN NoPlan
                   ELSE PlanFor(Sd(s, 2), Op0, t, 0, K2, B0, IF j > 6 THEN "tiny" ELSE Mode0, CFG.rej)
         IN  IF pl.c.op # "none" /\ Good(pl, CFG.rej) THEN pl ELSE First(j + 1)

Usable(r) == r.k \notin {"Unsup", "Irr"}
Calls == SelectSeq(evs, LAMBDA v : v.e = "call")
(* Swap freshly created operands for existing registers now and then. *)
RECURSIVE Reuse(_, _, _)
Reuse(s, pl, j) ==
    LET n == Len(regs)
        alt == Force([k \in 1..Len(pl.refs) |->
                  IF pl.refs[k] = 0 /\ Chance(Sd(s, k), 1, 2) THEN Rnd(Sd(s, 20 + k), n) + 1 ELSE pl.refs[k]])
        at(k) == IF alt[k] < 0 THEN -alt[k] ELSE k
        xs == Force([k \in 1..Len(alt) |-> IF alt[at(k)] = 0 THEN pl.xs[at(k)] ELSE regs[alt[at(k)]]])
        p2 == [c |-> pl.c, xs |-> xs, refs |-> alt]
    IN  IF j = 0 THEN pl
        ELSE IF alt # pl.refs /\ (\A k \in 1..Len(xs) : Usable(xs[k])) /\ Good(p2, FALSE) THEN p2
        ELSE Reuse(Sd(s, 50), pl, j - 1)

RECURSIVE Follow(_, _)
Follow(s0, j) ==
    IF j > 10 THEN NoPlan
    ELSE
    LET s == Sd(s0, j)
        \* A script says what to do with which matrix, step by step.
        sc == IF step <= Len(CFG.script) THEN CFG.script[step] ELSE [ops |-> CFG.follow, on |-> "any"]
        op == Pick(Sd(s, 1), sc.ops)
        i == IF sc.on = "first" THEN 1 ELSE IF sc.on = "last" \/ Chance(Sd(s, 2), 1, 2) THEN Len(regs) ELSE Rnd(Sd(s, 3), Len(regs)) + 1
        t == regs[i]
    IN  IF op = "again"
        THEN LET v == Calls[Rnd(Sd(s, 4), Len(Calls)) + 1]
             IN  [c |-> [op |-> v.op, p |-> v.p], xs |-> Force([k \in 1..Len(v.args) |-> regs[v.args[k]]]),
                  refs |-> v.args]
        ELSE IF ~Usable(t) \/ (Raw(t) /\ (Len(t.m.s) < 2 \/ op \notin (Elementwise \cup Mk \cup {"matmul", "solve", "kron"})))
             \/ (op \in {"mkLT", "mkUT"} /\ ~SquareM(t)) \/ (op = "mkWb" /\ t.k # "Diag")
        THEN Follow(s0, j + 1)
        ELSE IF op \in {"submat", "inv", "pd_inv", "cholesky", "root", "sample", "schur"} /\ ~SquareM(t)
        THEN Follow(s0, j + 1)
        ELSE IF Mag(t) > 20000 \/ SumSize(<<t>>) > (IF CFG.big > 0 THEN 300 ELSE 150) THEN Follow(s0, j + 1)
        ELSE LET pl == Reuse(Sd(s, 6), PlanFor(Sd(s, 5), op, t, i, Pick(Sd(s, 7), CFG.k2), B0, "tiny", FALSE),
                              IF CFG.share THEN 5 ELSE 1)
             IN  IF Good(pl, FALSE) THEN pl ELSE Follow(s0, j + 1)

NewRefs(pl) == SelectSeq(Force([k \in 1..Len(pl.refs) |-> k]), LAMBDA k : pl.refs[k] = 0)
Prec(k) == IF Prec0 = "mix" THEN Pick(Sd(S0, 500 + k), <<"f8", "f4">>) ELSE Prec0
Apply(pl, outcome) ==
    LET ns == NewRefs(pl)
        n == Len(regs)
        src(k) == IF pl.refs[k] < 0 THEN -pl.refs[k] ELSE k
        refs == Force([j \in 1..Len(pl.refs) |->
                   LET k == src(j) IN
                   IF pl.refs[k] # 0 THEN pl.refs[k]
                   ELSE n + Cardinality({z \in 1..Len(ns) : ns[z] <= k})])
        news == Force([z \in 1..Len(ns) |-> [e |-> "new", t |-> pl.xs[ns[z]], dt |-> Prec(n + z)]])
    IN  /\ evs' = evs \o news \o <<[e |-> "call", op |-> pl.c.op, p |-> pl.c.p, args |-> refs]>>
        /\ regs' = regs \o Force([z \in 1..Len(ns) |-> pl.xs[ns[z]]]) \o <<outcome>>
        /\ step' = step + 1
        /\ UNCHANGED tid

Outcome(pl) == IF CFG.rej THEN [k |-> "Unsup"]
               ELSE LET d == Do(pl.c, pl.xs).t
                        bad == CASE d.k \in {"Arr", "Dense", "LT", "UT"} -> IsBad(d.m)
                                 [] d.k = "Diag" -> IsBad(d.v)
                                 [] d.k = "Const" -> IsBad(d.c)
                                 [] OTHER -> FALSE
                    IN  IF bad \/ pl.c.op \in {"logdet", "sample", "root", "cholesky", "isnan"}
                        THEN [k |-> "Unsup"] ELSE d

Finish == /\ step' = 99
          /\ IF evs = <<>> THEN PrintT("@@SKIP")
             ELSE PrintT("@@" \o ToJson([tid |-> tid, evs |-> evs]))
          /\ UNCHANGED <<tid, regs, evs>>

SkipSet == {CFG.skip[k] : k \in 1..Len(CFG.skip)}
Init == /\ tid \in (CFG.first .. (CFG.first + CFG.count - 1)) \ SkipSet
        /\ step = 0 /\ regs = <<>> /\ evs = <<>>
(* An operator with a parameter, and no named Next: TLC computes the level of  *)
(* every parameterless definition, in time exponential in its depth.           *)
Step(z) ==
    \/ /\ step = 0
       /\ LET pl == TLCEval(First(1))
          IN  IF pl.c.op = "none" THEN Finish ELSE Apply(pl, Outcome(pl))
    \/ /\ step >= 1
       /\ step < CFG.len
       /\ LET pl == TLCEval(Follow(Sd(S0, 700 + step), 1))
          IN  IF pl.c.op = "none" THEN Finish ELSE Apply(pl, Outcome(pl))
    \/ step = CFG.len /\ Finish
Spec == Init /\ [][Step(0)]_vars
=============================================================================
