"""What each check explores, and which verdicts decide which property."""
import json
import os
import time

import tla
from profiles import MK as MKS, PROFILES, SHAPES as SHAPESS

ALL = None
VAL = {"value", "error"}
ARITH = {"add", "sub", "mul", "div"}
MK, SHAPES = set(MKS), set(SHAPESS)
PRODUCTS = {"matmul", "mm3", "matmul_diag", "kron"}


class P:
    """One property.

    plan     (profile, share of the programs)
    ops      operations whose verdicts count (ALL: every one)
    clauses  clauses that count
    when     further condition on an event: when(event, operand events)
    """

    def __init__(self, plan, ops, clauses, when=None, backend="numpy", audit=False, quick=5500, history=False,
                 models=(), also=()):
        self.also = also  # Further ways to run the same programs.
        self.plan, self.ops, self.clauses, self.when = plan, ops, clauses, when
        self.backend, self.audit, self.quick, self.history, self.models = backend, audit, quick, history, models

    def counts(self, ev, clause, args):
        return (
            clause in self.clauses
            and (self.ops is ALL or ev["op"] in self.ops)
            and (self.when is None or self.when(ev, args))
        )


def raw(t):
    return t["k"] in ("Num", "Arr")


def promoted(ev, args):
    return ev["e"] == "call" and (ev["p"]["via"] == "op" or any(raw(a["t"]) for a in args))


def batched(ev, args):
    return any(len(a["shp"]) > 2 for a in args)


def traceable(ev, args):
    """Unstacking arrays is not possible in compiled functions of JAX (a limitation of LAB)."""
    return not (ev["op"] == "mul" and ev.get("err") == "ConcretizationTypeError"
                and all(a["t"]["k"] in ("LR", "Wb") for a in args))


def algebra(check):
    """The specification's own laws, on every call of a small universe of terms."""
    path = os.path.join(check.work, "mc.json")
    cfg = {"depth": 1 if check.tier == "quick" else 2, "seed": 1, "first": 1, "count": 1, "len": 1, "rej": False, "batch": "any",
           "share": False, "empty": False, "big": 0, "script": [], "ops": ["add"], "follow": ["add"], "prec": ["f8"], "k2": ["Dense"], "skip": [0]}
    json.dump(cfg, open(path, "w"))
    rc, out = tla.tlc("MC_Algebra.tla", "MC_Algebra.cfg", {"GEN_CFG": path}, check.work, 300 if check.tier == "quick" else 7200)
    broken = list(tla.lines(out))
    if rc != 0 or broken:
        raise tla.Failure(f"the algebra breaks its own laws ({rc}):\n" + ("\n".join(broken[:5]) or tla.tail(out, 60)))
    a, b = tla.state_counts(out)
    check.extra = {"algebra_calls_checked_exhaustively": a, "algebra_distinct_states": b}
    return []


PROPS = {
    "C01": P([("dense", 4), ("big_ew", 1), ("chain", 1), ("cache", 1), ("empty", 1)], {"new", "dense", "to_numpy"}, VAL | {"new"}),
    "C02": P([("add", 8), ("big_ew", 2), ("badd", 2), ("share", 1), ("empty", 1), ("huge", 1)], {"add", "sub", "neg"}, VAL, also=("scaled",)),
    "C03": P([("mul", 8), ("big_ew", 2), ("badd", 2), ("share", 1), ("empty", 1), ("huge", 1)], {"mul", "div"}, VAL, also=("scaled",)),
    "C04": P([("matmul", 8), ("big_matmul", 2), ("badd", 2), ("share", 1), ("empty", 2), ("huge", 1)], PRODUCTS, VAL, also=("scaled",)),
    "C05": P([("reduce", 8), ("big_reduce", 2), ("bred", 2), ("empty", 1), ("shared", 1), ("huge", 1)], {"sum", "mean", "trace", "diag", "diag_extract"}, VAL, also=("scaled",)),
    "C06": P([("unary", 6), ("query", 4), ("empty", 1), ("shared", 2)],
             {"abs", "power", "sqrt", "isnan", "neg", "eye", "one", "zero", "ones", "zeros", "cast", "fill_diag"}, VAL, also=("scaled",)),
    "C07": P([("select", 6), ("trans", 4), ("big_select", 2), ("bred", 2), ("empty", 1), ("shared", 1), ("huge", 1)],
             {"take", "submat", "index", "reshape", "flatten", "squeeze", "tr", "T", "broadcast_to",
              "broadcast_batch_to"}, VAL, also=("scaled",)),
    "C08": P([("assemble", 8), ("big_assemble", 2), ("bred", 2), ("empty", 1), ("huge", 1)], {"concat", "tile", "block", "block_diag", "fill_diag"}, VAL, also=("scaled",)),
    "C09": P([("linalg", 3), ("blin", 2)], {"inv", "solve", "trisolve", "cholesky_solve", "schur"}, VAL, also=("scaled",)),
    "C10": P([("pd", 3), ("blin", 2)], {"iqf", "iqf_diag", "ratio", "pd_inv", "pd_schur", "logdet"}, VAL, also=("scaled",)),
    "C11": P([("root", 3), ("bred", 1), ("cache", 1)], {"cholesky", "root", "sample"}, VAL, also=("scaled",)),
    "C12": P([("query", 2), ("select", 1), ("trans", 1), ("assemble", 1), ("add", 1), ("matmul", 1), ("bred", 1), ("empty", 1)],
             ALL, {"shape"}),
    "C13": P([("reject", 4), ("rejlin", 2), ("rejmk", 2), ("rejshape", 1)], ALL, {"reject"}, quick=9000),
    "C14": P([("add", 2), ("mul", 2), ("matmul", 2), ("reduce", 1), ("unary", 1), ("select", 1), ("trans", 1),
              ("assemble", 1), ("linalg", 1), ("root", 1), ("big_ew", 1), ("big_matmul", 1), ("huge", 1)], ALL, {"kind", "lrank"}, models=(algebra,)),
    "C15": P([("empty", 1), ("add", 1), ("mul", 1), ("matmul", 1), ("select", 1), ("trans", 1), ("assemble", 1), ("linalg", 1),
              ("root", 1), ("chain", 1), ("big_ew", 1), ("big_assemble", 1)], ALL, {"honest", "new"}, models=(algebra,)),
    "C16": P([("add", 1), ("mul", 1), ("matmul", 1), ("reduce", 1), ("unary", 1), ("select", 1), ("trans", 1),
              ("assemble", 1), ("linalg", 1), ("pd", 1), ("root", 1), ("big_matmul", 1), ("big_reduce", 1), ("huge", 1)], ALL, {"warn"}),
    "C17": P([("cache", 3), ("derive", 4), ("chain", 2), ("share", 1)], ALL, {"immut", "cache"}, audit=True, history=True, quick=5500),
    "C18": P([("dt_add", 2), ("dt_matmul", 1), ("dt_misc", 2), ("ints", 1), ("dt_cache", 4)], ALL, {"dtype"}, quick=8000),
    "C19": P([("badd", 2), ("bred", 2), ("blin", 2)], ALL, VAL | {"shape"}, when=batched, quick=8500),
    "C20": P([("jx", 5), ("chain", 1), ("jrej", 2), ("dt_add", 1), ("dt_misc", 1), ("mk", 1), ("ints", 1)], ALL,
             VAL | {"shape", "kind", "reject", "dtype", "honest", "warn"}, backend="jax", quick=1800),
    "C21": P([("promo", 1)], ALL, VAL | {"reject", "kind"}, when=promoted, quick=12000),
    "C22": P([("jit", 1)], ALL, VAL | {"shape", "kind", "honest", "warn"}, when=traceable, backend="jit", quick=1600),
    "C23": P([("mk", 3), ("rejmk", 2), ("share", 1), ("dense", 1)], MK | {"new"}, VAL | {"new", "reject", "honest", "shape", "kind"}),
    "C24": P([("shapes", 3), ("shapes0", 1), ("rejshape", 2), ("rejshape0", 1), ("query", 3)],
             SHAPES | {"shape", "shape_batch", "shape_matrix", "rank", "describe", "isabstract", "uprank"}, VAL | {"reject"}, quick=8000),
}

THOROUGH_S = int(os.environ.get("VERIF_THOROUGH_S", "1500"))


def key(prog):
    """A program without its number."""
    return json.dumps(prog["evs"], sort_keys=True)


class Check:
    def __init__(self, prop, tier, seed, work, root):
        self.prop, self.tier, self.seed, self.work, self.root = prop, tier, seed, work, root
        self.p = PROPS[prop]
        self.counts = tla.Counts()
        self.hits = {}
        self.programs = {}
        self.kinds = {}
        self.others = {}
        self.violations = []
        self.samples = []

    # -------------------------------------------------------------- exploring
    def batch(self, first, total, seed):
        progs = []
        parts = sum(w for _, w in self.p.plan)
        for name, w in self.p.plan:
            n = max(1, total * w // parts)
            progs += tla.generate(PROFILES[name], seed, (first * w // parts) + 1, n, self.work, self.counts)
        return progs

    def examine(self, progs, backend=None):
        """Run and judge programs; the verdicts that decide this property."""
        if backend is None:
            return [f for b in (self.p.backend,) + self.p.also for f in self.examine(progs, b)]
        by = {p["tid"]: p for p in progs}
        traces = tla.drive(progs, self.work, backend=backend, audit=self.p.audit)
        out, suspects = [], []
        for tr, fails in tla.judge(traces, self.work, self.counts):
            for ev in tr["evs"]:
                k = (ev["op"],) + tuple(tr["evs"][i - 1]["t"]["k"] for i in ev["args"])
                self.kinds[k] = self.kinds.get(k, 0) + 1
            if len(self.samples) < 12 and not fails and len(tr["evs"]) > 1:
                self.samples.append(sample(tr))
            for i, op, clause in fails:
                ev = tr["evs"][i - 1]
                args = [tr["evs"][j - 1] for j in ev["args"]]
                if self.p.counts(ev, clause, args):
                    out.append((by[tr["tid"]], dict(tr, backend=backend), i, clause))
                else:
                    self.others[(op, clause)] = self.others.get((op, clause), 0) + 1
                if self.p.history and ev["e"] == "call" and clause in HISTORY:
                    suspects.append((by[tr["tid"]], dict(tr, backend=backend), i, clause))
        if suspects:
            out += self.fresh(suspects)
        return out

    def fresh(self, suspects):
        """Calls that go wrong although the very same call on fresh operands does not."""
        progs, of = [], {}
        for n, (prog, tr, i, clause) in enumerate(suspects[:200]):
            ev = tr["evs"][i - 1]
            evs, args = [], []
            ok = True
            for j in ev["args"]:
                a = tr["evs"][j - 1]
                t = plain(a["t"])
                ok = ok and t is not None and set(a["dts"]) - {"num"} in ({"f8"}, {"f4"}, set())
                evs.append({"e": "new", "t": t, "dt": "f4" if "f4" in a["dts"] else "f8"})
                args.append(len(evs))
            if ok:
                tid = f"fresh-{n}"
                progs.append({"tid": tid, "evs": evs + [{"e": "call", "op": ev["op"], "p": ev["p"], "args": args}]})
                of[tid] = n
        if not progs:
            return []
        traces = tla.drive(progs, self.work, backend=self.p.backend)
        out = []
        for tr, fails in tla.judge(traces, self.work, self.counts):
            prog, tr0, i, clause = suspects[of[tr["tid"]]]
            if not any(c == clause for _, _, c in fails):
                out.append((prog, tr0, i, clause + "-after-history"))
        return out

    # ------------------------------------------------------------------ known
    def known(self):
        """Findings that are recorded and not repaired: (id, program, expected failing clauses)."""
        path = os.path.join(self.root, "known_findings.json")
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path))["known"] if k["property"] == self.prop]

    def run_known(self):
        ks = self.known()
        if not ks:
            return []
        progs = [dict(k["program"], tid=k["id"], strict=True) for k in ks]
        out = []
        by = {k["id"]: k for k in ks}
        seen = {}
        for prog, tr, i, clause in self.examine(progs, self.p.backend):
            seen.setdefault(prog["tid"], []).append((prog, tr, i, clause))
        for k in ks:
            fails = seen.get(k["id"], [])
            if fails:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
            out += [f for f in fails if f[3] not in k["clauses"]]
        return out

    # -------------------------------------------------------------------- run
    def run(self, t0):
        bad = self.run_known()
        if self.tier == "quick":
            bad += self.examine(self.batch(0, self.p.quick, self.seed))
        else:
            n, rnd = 2 * self.p.quick, 0
            while not bad and time.time() - t0 < THOROUGH_S:
                bad += self.examine(self.batch(rnd * n, n, self.seed + 1000 * (rnd // 8)))
                rnd += 1
        for m in self.p.models:
            bad += m(self)
        return self.report(bad, t0)

    def report(self, bad, t0):
        rdir = os.path.join(self.root, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        paths = []
        for prog, tr, i, clause in bad:
            ev = tr["evs"][i - 1]
            k = (ev["op"], clause, tuple(tr["evs"][j - 1]["t"]["k"] for j in ev["args"]))
            if k in shown or len(paths) >= 10:
                continue
            shown.add(k)
            path = os.path.join(rdir, f"{self.prop}-{len(paths)}.json")
            json.dump({"property": self.prop, "clause": clause, "event": i, "backend": tr["backend"],
                       "audit": self.p.audit, "program": prog, "trace": tr}, open(path, "w"), indent=1)
            paths.append(path)
            args = ", ".join(k[2])
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {clause}: {ev['op']}({args}) {ev['p'] if ev['e'] == 'call' else ''} {ev.get('msg', '')[:200]}")
        self.evidence(len(bad), paths, t0)
        n = self.counts.judged
        print(f"property={self.prop} tier={self.tier} traces={n} calls={self.counts.stats} "
              f"violations={len(bad)} wall={time.time() - t0:.0f}s")
        return 1 if bad else 0

    def evidence(self, nbad, paths, t0):
        c = self.counts
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": c.distinct,
                "transitions": c.states,
                "traces_validated_against_impl": c.judged,
                "programs_generated": c.programs,
                "programs_without_plan": c.skipped,
                "traces_not_judged": c.dropped,
                "calls_by_verdict": c.stats,
                "operand_kind_combinations": len(self.kinds),
                "backend": ", ".join((self.p.backend,) + self.p.also),
                "profiles": [n for n, _ in self.p.plan],
                "samples": self.samples,
            },
            "assumptions": [
                "dense values agree with the specification's exact rationals up to 3e-8 (double) or 2e-6 (single) relative",
                "dimensions up to about 6 and batches of rank up to 3",
            ],
            "violations": nbad,
            "wall_s": round(time.time() - t0, 1),
        }
        if self.others:
            ev["coverage"]["verdicts_that_decide_other_properties"] = {
                f"{o}:{cl}": n for (o, cl), n in sorted(self.others.items())[:50]}
        extra = getattr(self, "extra", None)
        if extra:
            ev["coverage"].update(extra)
        os.makedirs(os.path.join(self.root, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(self.root, "evidence", f"{self.prop}.json"), "w"), indent=1)

    def replay(self, path):
        r = json.load(open(path))
        bad = self.examine([r["program"]], r.get("backend"))
        for prog, tr, i, clause in bad:
            ev = tr["evs"][i - 1]
            print(f"{clause}: event {i} {ev['op']} {ev['p']} -> {ev['out']} {ev.get('msg', '')}")
            for j in ev["args"]:
                print("   operand", json.dumps(tr["evs"][j - 1]["t"]))
            print("   result ", json.dumps(ev["t"]), "value", json.dumps(ev["v"]))
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0


HISTORY = {"value", "error", "kind", "honest", "shape", "dtype"}


def plain(t):
    """A projected term as one that can be built, or None."""
    if t["k"] in ("Unsup", "Irr", "Other"):
        return None
    out = {}
    for f, v in t.items():
        if isinstance(v, dict) and "k" in v:
            v = plain(v)
        elif isinstance(v, list) and v and isinstance(v[0], dict) and "k" in v[0]:
            v = [plain(x) for x in v]
            v = None if None in v else v
        elif isinstance(v, dict) and v.get("s") == [-1]:
            v = None
        if v is None:
            return None
        out[f] = v
    return out


def sample(tr):
    """A short description of a trace."""
    out = []
    for ev in tr["evs"]:
        k = ev["t"]["k"]
        shp = "x".join(map(str, ev["shp"]))
        out.append(f"{k}[{shp}]" if ev["e"] == "new" else
                   f"{ev['op']}({','.join('r%d' % i for i in ev['args'])})->{k}[{shp}]" if ev["out"] == "val"
                   else f"{ev['op']}!{ev['err']}")
    return "; ".join(out)[:400]
