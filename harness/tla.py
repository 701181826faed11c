"""Running TLC and the driver: generate programs, execute them, judge the traces."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Failure(Exception):
    """The machinery (not the code under test) failed."""


def run(cmd, env=None, timeout=None, cwd=None, out=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    with open(out or os.devnull, "w") as f:
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return "timeout"


def tlc(module, cfg, env, work, timeout, workers=8, heap="6g", args=()):
    """Run TLC; returns (exit status, path of its output)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    out = tempfile.mktemp(prefix="tlc", suffix=".out", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg), *args,
           os.path.join(SPEC, module)]
    rc = run(cmd, env=env, timeout=timeout, cwd=work, out=out)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def lines(path):
    """Messages that a specification printed."""
    for ln in open(path, errors="replace"):
        if ln.startswith('"@@'):
            try:
                yield json.loads(ln)[2:]
            except ValueError:
                pass


def state_counts(path):
    m = None
    for ln in open(path, errors="replace"):
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", ln) or m
    return tuple(int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)


def tail(path, n=30):
    ls = [ln for ln in open(path, errors="replace") if not ln.startswith(('"@@', "Parsing", "Semantic", "Linting"))]
    return "".join(ln[:300] + ("\n" if len(ln) > 300 else "") for ln in ls[:n])


class Counts:
    def __init__(self):
        self.states = self.distinct = self.programs = self.skipped = self.dropped = self.judged = 0
        self.stats = {}
        self.ops = {}


def generate(profile, seed, first, count, work, counts, timeout=240):
    """Programs of a profile, as dictionaries."""
    skip = []
    for _ in range(8):
        cfg = {"seed": seed, "first": first, "count": count, "skip": skip or [0]}
        cfg.update({k: profile[k] for k in ("ops", "follow", "len", "rej", "prec", "batch", "k2", "share", "empty", "big", "script")})
        path = os.path.join(work, "gen.json")
        json.dump(cfg, open(path, "w"))
        rc, out = tlc("Gen.tla", "Gen.cfg", {"GEN_CFG": path}, work, timeout)
        if rc == 0:
            break
        # A program that cannot be computed within 32 bits (or in time): leave it out.
        txt = open(out, errors="replace").read()
        tids = set(re.findall(r"/\\ tid = (\d+)", txt))
        if rc == "timeout" or not tids:
            raise Failure(f"generation of {profile['name']} failed ({rc}):\n" + tail(out))
        skip += [int(t) for t in tids]
    else:
        raise Failure(f"generation of {profile['name']} failed:\n" + tail(out))
    progs = []
    for m in lines(out):
        if m.startswith("SKIP"):
            counts.skipped += 1
        else:
            p = json.loads(m)
            p["tid"] = f"{profile['name']}-{seed}-{p['tid']}"
            progs.append(p)
    progs.sort(key=lambda p: int(p["tid"].rsplit("-", 1)[1]))
    a, b = state_counts(out)
    counts.states += a
    counts.distinct += b
    counts.programs += len(progs)
    os.remove(out)
    return progs


def drive(progs, work, backend="numpy", audit=False, timeout=600, extra=()):
    src, dst = os.path.join(work, "p.ndjson"), os.path.join(work, "t.ndjson")
    with open(src, "w") as f:
        for p in progs:
            f.write(json.dumps(p) + "\n")
    log = os.path.join(work, "driver.log")
    cmd = [PY, "-W", "ignore", os.path.join(HERE, "driver.py"), src, dst, "--backend", backend]
    rc = run(cmd + (["--audit"] if audit else []) + list(extra), timeout=timeout, out=log)
    if rc != 0:
        raise Failure(f"driver failed ({rc}):\n" + open(log, errors="replace").read()[-3000:])
    return [json.loads(ln) for ln in open(dst)]


def judge(traces, work, counts, timeout=300, module="Trace.tla", cfg="Trace.cfg"):
    """Verdicts: list of (trace, fails)."""
    left = list(traces)
    done = []
    for _ in range(6):
        if not left:
            break
        path = os.path.join(work, "traces.ndjson")
        with open(path, "w") as f:
            for t in left:
                f.write(json.dumps(t) + "\n")
        rc, out = tlc(module, cfg, {"TRACE_FILE": path}, work, timeout)
        seen = set()
        for m in lines(out):
            r = json.loads(m)
            if r["line"] in seen:
                continue
            seen.add(r["line"])
            done.append((left[r["line"] - 1], r["fails"]))
            for k, v in r["stats"].items():
                counts.stats[k] = counts.stats.get(k, 0) + v
        a, b = state_counts(out)
        counts.states += a
        counts.distinct += b
        rest = [t for i, t in enumerate(left) if i + 1 not in seen]
        if rc == 0 and not rest:
            left = rest
            break
        txt = open(out, errors="replace").read()
        bad = {int(i) for i in re.findall(r"/\\ tr = (\d+)", txt)}
        if rc == "timeout":
            # Those under way are not among the verdicts; without a clue, halve.
            bad = {i + 1 for i in range(len(left)) if i + 1 not in seen}
            if len(bad) > 64 and len(seen) == 0:
                raise Failure("judging timed out:\n" + tail(out))
            bad = set(sorted(bad)[:16])
        if not bad:
            raise Failure(f"judging failed ({rc}):\n" + tail(out, 60))
        counts.dropped += len([i for i in bad if i not in seen])
        left = [t for i, t in enumerate(left) if i + 1 not in seen and i + 1 not in bad]
    else:
        counts.dropped += len(left)
    counts.judged += len(done)
    return done
