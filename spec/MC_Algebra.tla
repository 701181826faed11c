----------------------------- MODULE MC_Algebra -----------------------------
(***************************************************************************)
(* The algebra itself, checked exhaustively on a small universe: a store    *)
(* that starts with one of the terms of U and grows by calls, with further  *)
(* operands from U.  Do (what an implementation that exploits structure      *)
(* does) is compared with Sem (what a user relies on), and the laws that     *)
(* the listed properties state are checked on the terms that result.         *)
(***************************************************************************)
EXTENDS Plan

DEPTH == CFG.depth

M(s, e) == [s |-> s, d |-> 1, e |-> e]
H(s, e) == [s |-> s, d |-> 2, e |-> e]
Num(v) == [k |-> "Num", m |-> Scal(v)]
LRd(l) == [k |-> "LR", l |-> l, r |-> l, mid |-> Diag(Full(<<MShape(P(l))[2]>>, 1)), rd |-> TRUE, md |-> TRUE]
D22 == M(<<2, 2>>, <<1, 2, -1, 3>>)
P22 == M(<<2, 2>>, <<2, 1, 1, 3>>)
B22 == M(<<2, 2, 2>>, <<1, 0, 2, -1, 3, 1, 1, 1>>)
L22 == M(<<2, 2>>, <<1, 0, -2, 3>>)
U22 == M(<<2, 2>>, <<2, 1, 0, -1>>)
LB22 == M(<<2, 2, 2>>, <<1, 0, 1, 2, -1, 0, 0, 3>>)
C1 == Arr(M(<<2, 1>>, <<1, 2>>))
C2 == Arr(M(<<2, 1>>, <<3, -1>>))
R1 == LRd(C1)
R2 == LR(C1, C2, Dense(M(<<1, 1>>, <<2>>)))
R3 == LR(Arr(M(<<2, 2>>, <<1, 1, 0, 2>>)), Arr(M(<<2, 2>>, <<1, -1, 2, 0>>)), Dense(P22))
U == <<Num(0), Num(1), Num(-2), Arr(Scal(3)), Arr(M(<<2>>, <<1, -1>>)), Arr(D22), Arr(B22),
       Zero(<<2, 2>>), Zero(<<2, 1>>), Zero(<<2, 2, 2>>),
       Dense(P22), Dense(M(<<2, 1>>, <<2, -1>>)), Dense(M(<<1, 2>>, <<1, 1>>)), Dense(B22), Dense(M(<<1, 1>>, <<2>>)),
       Diag(M(<<2>>, <<2, 3>>)), Diag(M(<<2, 2>>, <<1, 0, -1, 2>>)), Diag(M(<<1>>, <<4>>)),
       Const(Scal(2), 2, 2), Const(Scal(0), 2, 2), Const(M(<<2>>, <<1, -1>>), 2, 2), Const(Scal(1), 2, 1), Const(Scal(3), 1, 1),
       LT(L22), LT(LB22), LT(M(<<2, 2>>, <<1, 0, 0, 2>>)), UT(U22), UT(M(<<2, 2>>, <<-1, 0, 0, 2>>)),
       R1, R2, R3, LRd(Arr(M(<<2, 2, 1>>, <<1, 2, 0, 1>>))), LR(C1, Arr(M(<<1, 1>>, <<2>>)), Diag(M(<<1>>, <<1>>))),
       LR(LT(L22), Diag(M(<<2>>, <<1, 2>>)), UT(U22)),
       Wb(Diag(M(<<2>>, <<1, 2>>)), R1), Wb(Diag(M(<<2>>, <<1, -1>>)), R2), Wb(Diag(M(<<2, 2>>, <<1, 2, 3, 1>>)), R1),
       Kr(Dense(M(<<1, 1>>, <<2>>)), Dense(D22)), Kr(Dense(M(<<2, 1>>, <<1, 2>>)), Dense(M(<<1, 2>>, <<1, -1>>))),
       Kr(Diag(M(<<2>>, <<1, 2>>)), Const(Scal(2), 1, 1)), Kr(R1, LT(M(<<1, 1>>, <<3>>))),
       TB(<<Dense(M(<<1, 2>>, <<1, 2>>))>>, <<2>>, -2), TB(<<Dense(M(<<2, 1>>, <<1, 2>>)), Zero(<<2, 1>>)>>, <<1, 1>>, -1)>>
(* Further operands of later calls. *)
V == <<Num(0), Num(2), Zero(<<2, 2>>), Dense(D22), Diag(M(<<2>>, <<1, -1>>)), Const(M(<<2>>, <<1, 2>>), 2, 2), LT(L22), UT(U22), R1, R2,
       Wb(Diag(M(<<2>>, <<1, 2>>)), R1), Kr(Dense(M(<<1, 1>>, <<2>>)), Dense(D22))>>

C(op) == [op |-> op, p |-> P0]
Ax(op, ax) == [op |-> op, p |-> [P0 EXCEPT !.ax = ax]]
MM(op, ta, tb) == [op |-> op, p |-> [P0 EXCEPT !.ta = ta, !.tb = tb]]
TF == <<FALSE, TRUE>>
Binary == <<C("add"), C("sub"), C("mul"), C("div"), MM("matmul", FALSE, FALSE), MM("matmul", TRUE, FALSE),
            MM("matmul", FALSE, TRUE), MM("matmul", TRUE, TRUE), MM("matmul_diag", FALSE, FALSE),
            MM("matmul_diag", TRUE, FALSE), C("kron"), C("solve"), C("trisolve"), C("cholesky_solve"), C("iqf"), C("iqf_diag"),
            Ax("concat", -1), Ax("concat", -2), C("block_diag")>>
Unary == <<C("neg"), C("tr"), C("abs"), [op |-> "power", p |-> [P0 EXCEPT !.n = 2]], C("sum"), Ax("sum", -1), Ax("sum", -2),
           Ax("sum", 0), C("mean"), Ax("mean", -1), C("trace"), C("diag"), C("inv"), C("pd_inv"), C("schur"), C("pd_schur"),
           C("ones"), C("zeros"), C("eye"), C("dense"), C("squeeze"), C("flatten"),
           [op |-> "take", p |-> [P0 EXCEPT !.ax = -1, !.idx = <<0>>]], [op |-> "take", p |-> [P0 EXCEPT !.ax = -2, !.idx = <<1, 0>>]],
           [op |-> "take", p |-> [P0 EXCEPT !.ax = 0, !.idx = <<1, 1, 0>>]],
           [op |-> "submat", p |-> [P0 EXCEPT !.idx = <<1>>]], [op |-> "submat", p |-> [P0 EXCEPT !.idx = <<1, 0>>]],
           [op |-> "broadcast_to", p |-> [P0 EXCEPT !.sh = <<2, 2, 2>>]],
           [op |-> "broadcast_batch_to", p |-> [P0 EXCEPT !.sh = <<2>>]],
           [op |-> "tile", p |-> [P0 EXCEPT !.sh = <<2, 1>>]], [op |-> "tile", p |-> [P0 EXCEPT !.sh = <<1, 2>>]],
           [op |-> "tile", p |-> [P0 EXCEPT !.sh = <<2, 1, 2>>]]>>

VARIABLES x, bad, depth
vars == <<x, bad, depth>>

Known(t) == ~HasBad(t) /\ t.k \notin {"Unsup", "Irr"}
Small(ts) == \A k \in 1..Len(ts) : Mag(ts[k]) < 2000
Flip(k) == CASE k = "LT" -> "UT" [] k = "UT" -> "LT" [] OTHER -> k
Mirror(c) == IF c.op = "matmul" THEN [c EXCEPT !.p.ta = ~c.p.tb, !.p.tb = ~c.p.ta] ELSE c
Law(ok, name, c, ts) == IF ok THEN <<>> ELSE <<<<name, c.op, [k \in 1..Len(ts) |-> ts[k].k], c, ts>>>>

(* Different columns of the same size: which of them are matched up is a matter *)
(* of sorting, so the number of columns may depend on the order.                *)
Tied(a, b) ==
    LET cols(t) == LET m == Den(t) IN {<<j, TTake(m, Len(m.s), <<j>>), ColNorm(m, j)>> : j \in 0..(m.s[Len(m.s)] - 1)}
        tied(u, v) == \E y \in cols(u) : \E z \in cols(v) : y[3] = z[3] /\ y[2] # z[2]
    IN  tied(a.l, b.l) \/ tied(a.r, b.r)

(* What must hold of every call. *)
Laws(c, ts, d, sem) ==
    LET t == d.t
        known == Known(t)
        order == c.op \in {"add", "mul", "matmul"} /\ known
    IN  \* C02 - C10: the structured result denotes the dense one
        Law(known => Den(t) = sem, "value", c, ts)
        \* C12
        \o Law(known => ShapeOf(t) = sem.s, "shape", c, ts)
        \* C15: results are what their type claims, made of parts that fit
        \o Law(known => WF(t) /\ Honest(t), "sound", c, ts)
        \* C16: where there is no structure, none can be lost
        \o Law(c.op # "block_diag" /\ (\A k \in 1..Len(ts) : ~Structured(P(ts[k]))) => ~d.w, "warn", c, ts)
        \* C14: structure does not depend on the order of operands
        \o Law(order => Pre(Mirror(c), <<ts[2], ts[1]>>) = "ok" /\
                        \E e \in {Do(Mirror(c), <<ts[2], ts[1]>>)} :
                            /\ (e.w = d.w \/ \E k \in 1..2 : DeepDense(ts[k]))
                            /\ (IF c.op = "matmul" THEN Flip(Flat(e.t.k)) ELSE Flat(e.t.k)) = Flat(t.k)
                            /\ (Known(e.t) => Den(e.t) = (IF c.op = "matmul" THEN TTr(Den(t)) ELSE Den(t)))
                            /\ (t.k = "LR" /\ e.t.k = "LR" => LRRank(t) = LRRank(e.t) \/ (ts[1].k = "LR" /\ ts[2].k = "LR" /\ Tied(ts[1], ts[2]))), "order", c, ts)
        \* C14: zero is absorbed
        \o Law(c.op \in {"mul", "matmul"} /\ "Zero" \in {P(ts[k]).k : k \in 1..2} => t.k = "Zero", "absorb", c, ts)
        \* C14: what a low-rank result may declare
        \o Law(known /\ t.k = "LR" /\ Len(ts) = 2 /\ ts[1].k = "LR" /\ ts[2].k = "LR" =>
                 CASE c.op \in {"add", "sub"} -> LRRank(t) <= LRRank(ts[1]) + LRRank(ts[2])
                   [] c.op = "mul" -> LRRank(t) <= LRRank(ts[1]) * LRRank(ts[2])
                   [] c.op = "matmul" -> LRRank(t) <= Min2(LRRank(ts[1]), LRRank(ts[2]))
                   [] OTHER -> TRUE, "lrank", c, ts)
(* C13: what is rejected one way round is rejected the other way round. *)
Fits(c, ts) ==
    IF c.op \notin {"add", "sub", "mul", "matmul"} \/ \A k \in 1..2 : Raw(ts[k]) THEN <<>>
    ELSE Law((Pre(c, ts) = "reject") = (Pre(Mirror(c), <<ts[2], ts[1]>>) = "reject"), "fits", c, ts)

Applicable(c, ts) ==
    /\ Safe(c, ts) /\ Small(ts)
    /\ (\A k \in 1..Len(ts) : Raw(ts[k]) => (Len(ts[k].m.s) >= 2 \/ (Len(ts) = 2 /\ c.op \in Elementwise \cup {"matmul", "kron"})))
Try(c, ts) ==
    /\ Applicable(c, ts)
    /\ IF Pre(c, ts) = "ok"
       THEN \E d \in {Do(c, ts)} : \E s \in {Sem(c, ts)} :
                /\ x' = d.t
                /\ bad' = Force(Laws(c, ts, d, s) \o Fits(c, ts))
       ELSE /\ x' = Unsup
            /\ bad' = Force(Fits(c, ts))
    /\ depth' = depth + 1

Init == /\ \E k \in 1..Len(U) : x = U[k]
        /\ bad = <<>> /\ depth = 0
Step(z) ==
    \/ /\ bad # <<>>
       /\ PrintT("@@" \o ToJson(bad))
       /\ bad' = <<>> /\ x' = Unsup /\ UNCHANGED depth
    \/ /\ bad = <<>>
       /\ depth < DEPTH
       /\ Known(x)
       /\ (depth > 0 => ~Raw(x))
       /\ \/ \E k \in 1..Len(Unary) : Try(Unary[k], <<x>>)
          \/ \E k \in 1..Len(Binary) : \E j \in 1..Len(IF depth = 0 THEN U ELSE V) :
               LET o == IF depth = 0 THEN U[j] ELSE V[j]
               IN  Try(Binary[k], <<x, o>>) \/ (depth > 0 /\ Try(Binary[k], <<o, x>>))
Spec == Init /\ [][Step(0)]_vars
=============================================================================
