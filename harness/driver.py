"""Run generated programs on the real library and record one trace per program.

driver.py PROGRAMS.ndjson TRACES.ndjson [--backend numpy|jax] [--audit] [--jobs N]
"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import warnings
import zlib

os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from lib import *  # noqa
import lib  # noqa
import ops  # noqa
import numpy as np  # noqa

IMPRECISE = {
    "inv", "pd_inv", "solve", "trisolve", "cholesky_solve", "iqf", "iqf_diag", "ratio", "schur",
    "pd_schur", "cholesky", "root", "sample", "logdet",
}
NOVAL = {"s": [-1], "d": 1, "e": []}
LIMIT = 60  # Seconds for one call.


class Slow(Exception):
    pass


def _slow(*_):
    raise Slow()


def guarded(f, *a):
    """Call `f`; whatever goes wrong is its outcome, not ours."""
    try:
        return f(*a)
    except Slow:
        raise
    except Exception as e:
        return Broken(e)


def text(e):
    try:
        return str(e)[:300]
    except Exception:
        return "?"


class Broken:
    def __init__(self, e):
        self.name = f"{type(e).__name__}: {text(e)}"[:200]


def shape_of(x):
    try:
        if isinstance(x, AbstractMatrix) and tuple(x.shape) != tuple(B.shape(x)):
            return [-3]
        return [int(d) for d in B.shape(x)]
    except Exception:
        return [-2]


def value_dt(x):
    try:
        return dt_name(quiet_dense(x).dtype)
    except Slow:
        raise
    except Exception:
        return "?"


def whole(t):
    """Whether a term consists of whole numbers."""
    if isinstance(t, dict):
        return t.get("d", 1) == 1 and all(whole(v) for v in t.values())
    if isinstance(t, list):
        return all(whole(v) for v in t if isinstance(v, (dict, list)))
    return True


def rank_of(x):
    try:
        return int(B.rank(x))
    except Exception:
        return -2


def cache_values(x):
    """Snapshot of the filled caches below `x`: list of (path object, slot, value)."""
    out = []
    for o in objects(x):
        for slot in CACHES:
            if hasattr(o, slot):
                v = getattr(o, slot)
                if v is not None and not callable(v):
                    out.append((o, slot, v))
    return out


class Run:
    def __init__(self, prog, bk, audit):
        self.prog, self.bk, self.audit = prog, bk, audit
        self.regs, self.sigs, self.precs, self.seen = [], [], [], {}
        self.trace = []

    def observe(self, op, res, prec="f8"):
        t = guarded(project, res, prec)
        if isinstance(t, Broken):
            t = {"k": "Other", "name": t.name}
        ev = {"pf": prec, "t": t, "shp": shape_of(res), "rk": rank_of(res)}
        try:
            v = ops.value(op, res)
            ev["v"] = rational(v, prec)
        except Slow:
            raise
        except Exception as e:  # A result whose value cannot even be computed.
            ev["v"] = NOVAL
            ev["verr"] = f"{type(e).__name__}: {text(e)}"[:200]
        ev["dt"] = dt_name(res)
        if isinstance(res, AbstractMatrix) and guarded(dt_name, guarded(lambda: res.dtype)) != ev["dt"]:
            ev["dt"] = "?"
        ev["vdt"] = "?" if op in ("cholesky", "sample", "root", "logdet") else value_dt(res)
        dts = guarded(leaf_dts, res)
        ev["dts"] = ["?"] if isinstance(dts, Broken) else dts
        return ev

    def audits(self):
        """Caches that were filled (or changed) since the last look."""
        out, mutated = [], []
        for i, r in enumerate(self.regs):
            for o, slot, v in cache_values(r):
                key = (id(o), slot)
                sig = signature(v)
                old = self.seen.get(key)
                if old is None:
                    self.seen[key] = (sig, o)
                    if self.audit and self.precs[i] == "f8":
                        val = guarded(gram if slot == "cholesky" else quiet_dense, v)
                        of = guarded(project, o)
                        if not isinstance(of, Broken):
                            out.append({"reg": i + 1, "slot": slot, "of": of,
                                        "v": BAD if isinstance(val, Broken) else rational(val)})
                elif old[0] != sig:
                    self.seen[key] = (sig, o)
                    mutated.append(i + 1)
        return out, mutated

    def step(self, ev):
        if ev["e"] == "new":
            if ev["dt"] == "i8" and not whole(ev["t"]):
                ev = dict(ev, dt="f8")
            rec = {"e": "new", "want": ev["t"], "wdt": ev["dt"], "op": "new", "p": P0, "args": [], "out": "val",
                   "err": "", "w": False, "nv": False}
            prec = "f4" if ev["dt"] == "f4" and ev["t"]["k"] != "Num" else "f8"
            x = guarded(build, ev["t"], ev["dt"], self.bk)
            if isinstance(x, Broken):
                rec.update(out="err", err=x.name, pf=prec, t={"k": "Unsup"}, v=NOVAL, shp=[], rk=0, dt="", vdt="", dts=[])
                x = Missing()
            else:
                rec.update(self.observe("new", x, prec))
                if ev["t"]["k"] in ("Num",):
                    rec["t"] = ev["t"]
        else:
            args = [self.regs[i - 1] for i in ev["args"]]
            rec = {"e": "call", "want": {"k": "Unsup"}, "wdt": "", "op": ev["op"], "p": ev["p"], "args": ev["args"]}
            # Whatever was computed from single precision is only that precise.
            prec = "f4" if any(self.precs[i - 1] == "f4" for i in ev["args"]) else "f8"
            skip = any(isinstance(a, Missing) for a in args)
            x = Missing()
            if skip:
                rec.update(out="skip", err="", w=False, nv=True)
            else:
                imprecise = ev["op"] in IMPRECISE and prec == "f4"
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    try:
                        with np.errstate(all="ignore"):
                            x = self.execute(ev["op"], ev["p"], args)
                        rec.update(out="val", err="")
                    except Slow:
                        raise
                    except Exception as e:
                        rec.update(out="err", err=type(e).__name__, msg=text(e))
                rec["w"] = any(issubclass(w.category, ToDenseWarning) for w in ws)
                rec["nv"] = bool(imprecise)
            if rec["out"] == "val":
                if "f4" in leaf_dts(x):
                    prec = "f4"
                rec.update(self.observe(ev["op"], x, prec))
            else:
                rec.update(pf=prec, t={"k": "Unsup"}, v=NOVAL, shp=[], rk=0, dt="", vdt="", dts=[])
        # Nothing may have changed but the caches.
        mut = [i + 1 for i, (r, s) in enumerate(zip(self.regs, self.sigs)) if signature_of(r) != s]
        self.regs.append(x)
        self.precs.append(prec)
        self.sigs.append(signature_of(x))
        aud, cm = self.audits()
        rec["mut"] = sorted(set(mut) | set(cm))
        rec["audit"] = aud
        self.trace.append(rec)

    def execute(self, op, p, args):
        return ops.run(op, p, args)

    def run(self):
        for ev in self.prog["evs"]:
            n = len(self.trace)
            signal.signal(signal.SIGALRM, _slow)
            signal.alarm(LIMIT)
            try:
                self.step(ev)
            except Slow:
                self.slow(ev, n)
            finally:
                signal.alarm(0)
        return {"tid": self.prog["tid"], "strict": bool(self.prog.get("strict")), "evs": self.trace}


    def slow(self, ev, n):
        """Record that a step did not come to an end."""
        del self.trace[n:], self.regs[n:], self.precs[n:], self.sigs[n:]
        rec = {"e": ev["e"], "want": ev.get("t", {"k": "Unsup"}), "wdt": ev.get("dt", ""), "op": ev.get("op", "new"),
               "p": ev.get("p", P0), "args": ev.get("args", []), "out": "err", "err": "Timeout", "w": False,
               "nv": True, "pf": "f8", "t": {"k": "Unsup"}, "v": NOVAL, "shp": [], "rk": 0, "dt": "", "vdt": "", "dts": [],
               "mut": [], "audit": []}
        self.regs.append(Missing())
        self.precs.append("f8")
        self.sigs.append("missing")
        self.trace.append(rec)


class Missing:
    pass


class JitRun(Run):
    """Run a program eagerly while recording its control flow, then compiled, replaying that control flow."""

    def calls(self, regs, out):
        """Run all calls of the program."""
        for n, ev in enumerate(self.prog["evs"]):
            if ev["e"] == "new":
                continue
            args = [regs[i - 1] for i in ev["args"]]
            rec, x = {"err": "", "w": False}, Missing()
            if any(isinstance(a, Missing) for a in args):
                rec["out"] = "skip"
            else:
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    try:
                        x = ops.run(ev["op"], ev["p"], args)
                        rec["out"] = "val"
                    except Slow:
                        raise
                    except Exception as e:
                        rec.update(out="err", err=type(e).__name__, msg=text(e))
                rec["w"] = any(issubclass(w.category, ToDenseWarning) for w in ws)
            regs[n] = x
            out[n] = rec

    def run(self):
        signal.signal(signal.SIGALRM, _slow)
        signal.alarm(2 * LIMIT)
        try:
            return self.go()
        except Slow:
            return {"tid": self.prog["tid"], "strict": False, "evs": []}
        finally:
            signal.alarm(0)

    def go(self):
        import jax

        evs = self.prog["evs"]
        start = [build(ev["t"], ev["dt"], self.bk) if ev["e"] == "new" else None for ev in evs]
        cache = B.ControlFlowCache()
        with cache:
            self.calls([remake(x, lambda a: a) for x in start], {})
        inputs = []
        for x in start:
            remake(x, inputs.append)
        kept = {}

        def f(inputs):
            it = iter(inputs)
            regs = [remake(x, lambda _: next(it)) for x in start]
            recs, outs = {}, []
            with cache:
                self.calls(regs, recs)
            for x in regs:
                if not isinstance(x, Missing):
                    remake(x, lambda a: outs.append(jax.numpy.asarray(a)))
            kept.update(regs=regs, recs=recs)
            return outs

        outs = jax.jit(f)(inputs)
        it = iter(outs)
        regs = [x if isinstance(x, Missing) else remake(x, lambda _: next(it)) for x in kept["regs"]]
        for n, ev in enumerate(evs):
            prec = "f8"
            if ev["e"] == "new":
                rec = {"e": "new", "want": ev["t"], "wdt": ev["dt"], "op": "new", "p": P0, "args": [], "out": "val",
                       "err": "", "w": False, "nv": False}
            else:
                rec = {"e": "call", "want": {"k": "Unsup"}, "wdt": "", "op": ev["op"], "p": ev["p"], "args": ev["args"],
                       "nv": False}
                rec.update(kept["recs"][n])
            if rec["out"] == "val":
                rec.update(self.observe(ev.get("op", "new"), regs[n], prec))
                if ev["e"] == "new" and ev["t"]["k"] == "Num":
                    rec["t"] = ev["t"]
            else:
                rec.update(pf=prec, t={"k": "Unsup"}, v=NOVAL, shp=[], rk=0, dt="", vdt="", dts=[])
            rec.update(mut=[], audit=[])
            self.trace.append(rec)
        return {"tid": self.prog["tid"], "strict": bool(self.prog.get("strict")), "evs": self.trace}


class ScaledRun(Run):
    """The first call of a program, on operands multiplied by powers of two, which is exact.

    Recorded is what was observed, divided by the power of two that the degree of the operation predicts.
    """

    def run(self):
        evs = self.prog["evs"]
        n = next(i for i, ev in enumerate(evs) if ev["e"] == "call")
        ev = evs[n]
        if ev["op"] not in ops.DEGREES or any(e["e"] == "call" for e in evs[:n]):
            return None
        if any(e["dt"] == "i8" for e in evs[:n]):
            return None
        if ev["op"] in ops.REGULARISED and any(e["t"]["k"] in ("Wb", "Kr") for e in evs[:n]):
            return None  # Inverses of parts are regularised, too.
        self.prog = dict(self.prog, evs=evs[: n + 1])
        h = zlib.crc32(json.dumps(evs[: n + 1]).encode())
        sizes = (-64, 64, -40, 40, -24, 24, 0)
        if ev["op"] in ops.REGULARISED:  # A small constant is added to what is decomposed.
            sizes = tuple(map(abs, sizes))
        if any(e["dt"] == "f4" for e in evs[:n]):
            sizes = tuple(k // 4 for k in sizes)
        one, other, mid = sizes[h % 6], sizes[h // 6 % 7], bool(h // 42 % 2) or ev["op"] in ("schur", "pd_schur")
        self.ks = [one if i == 0 or ev["op"] in ops.SAME else other for i in range(len(ev["args"]))]
        if ev["op"] == "iqf" or ev["op"] == "iqf_diag":
            self.ks[1:] = [other] * (len(self.ks) - 1)
        # One object, one scale.
        for i, a in enumerate(ev["args"]):
            self.ks[i] = self.ks[ev["args"].index(a)]
        self.mid = mid
        return super().run()

    def execute(self, op, p, args):
        where = self.prog["evs"][-1]["args"]
        xs = {i: scaled(a, k, self.mid) for i, a, k in zip(where, args, self.ks)}
        return ops.run(op, p, [xs[i] for i in where])

    def observe(self, op, res, prec="f8"):
        rec = super().observe(op, res, prec)
        if op != "new":
            k = ops.DEGREES[op](self.prog["evs"][-1]["p"], self.ks)
            rec["t"] = blank(rec["t"])
            rec["t"]["rank"] = 0  # Which factors coincide depends on their scales.
            rec["v"] = NOVAL
            v = guarded(ops.value, op, res)
            if not isinstance(v, Broken):
                rec["v"] = rational(np.asarray(v, dtype=float) * 2.0 ** -k, prec)
        return rec


def signature_of(x):
    if isinstance(x, Missing):
        return "missing"
    s = guarded(signature, x)
    return "broken: " + s.name if isinstance(s, Broken) else s


P0 = {"ta": False, "tb": False, "tc": False, "ax": 99, "idx": [], "form": "", "sh": [], "n": 0,
      "via": "B", "lay": []}


def work(a):
    line, backend, audit = a
    prog = json.loads(line)
    bk = use_backend({"jit": "jax", "scaled": "numpy"}.get(backend, backend))
    try:
        return json.dumps({"jit": JitRun, "scaled": ScaledRun}.get(backend, Run)(prog, bk, audit).run())
    except Exception as e:
        import traceback

        return "!!" + json.dumps({"tid": prog["tid"], "error": traceback.format_exc()})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("programs")
    ap.add_argument("traces")
    ap.add_argument("--backend", default="numpy")
    ap.add_argument("--audit", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    lines = open(a.programs).read().splitlines()
    todo = [(ln, a.backend, a.audit) for ln in lines]
    bad = 0
    with mp.get_context("fork").Pool(a.jobs) as pool, open(a.traces, "w") as f:
        for r in pool.imap(work, todo, chunksize=max(1, min(20, len(todo) // 40))):
            if r.startswith("!!"):
                bad += 1
                sys.stderr.write(r + "\n")
            elif r != "null":
                f.write(r + "\n")
    sys.exit(2 if bad else 0)


if __name__ == "__main__":
    main()
