"""Programs that show the recorded findings (writes known_findings.json; run by hand)."""
import json
import os
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import tla  # noqa: E402

P0 = {"ta": False, "tb": False, "tc": False, "ax": 99, "idx": [], "form": "", "sh": [], "n": 0, "via": "B", "lay": []}


def ten(s, e):
    return {"s": s, "d": 1, "e": e}


def arr(s, e):
    return {"k": "Arr", "m": ten(s, e)}


def lr(n, e):
    f = arr([n, 1], e)
    return {"k": "LR", "l": f, "r": f, "mid": {"k": "Diag", "v": ten([1], [1])}, "rd": True, "md": True}


ONE = {
    "Diag": {"k": "Diag", "v": ten([1], [2])},
    "LT": {"k": "LT", "m": ten([1, 1], [2])},
    "UT": {"k": "UT", "m": ten([1, 1], [2])},
    "LR": lr(1, [2]),
    "Wb": {"k": "Wb", "dg": {"k": "Diag", "v": ten([1], [2])}, "lr": lr(1, [1])},
    "Kr": {"k": "Kr", "l": arr([1, 1], [2]), "r": arr([1, 1], [3])},
}
TWO = {
    "Dense": {"k": "Dense", "m": ten([2, 2], [1, 2, 3, 4])},
    "Diag": {"k": "Diag", "v": ten([2], [3, 5])},
    "LT": {"k": "LT", "m": ten([2, 2], [1, 0, 3, 4])},
    "UT": {"k": "UT", "m": ten([2, 2], [1, 3, 0, 4])},
    "Const": {"k": "Const", "c": ten([], [3]), "r": 2, "q": 2},
    "LR": lr(2, [1, 2]),
    "Wb": {"k": "Wb", "dg": {"k": "Diag", "v": ten([2], [2, 3])}, "lr": lr(2, [1, 2])},
    "Kr": {"k": "Kr", "l": arr([2, 1], [2, 1]), "r": arr([1, 2], [3, 1])},
}


def program(op, a, b):
    return {"evs": [{"e": "new", "t": a, "dt": "f8"}, {"e": "new", "t": b, "dt": "f8"},
                    {"e": "call", "op": op, "p": P0, "args": [1, 2]}]}


def main():
    progs = []
    for op in ("add", "mul", "div"):
        for x, a in ONE.items():
            for y, b in TWO.items():
                for flip in (False,):
                    p = program(op, b, a) if flip else program(op, a, b)
                    names = (y + "2x2", x + "1x1") if flip else (x + "1x1", y + "2x2")
                    if op == "div" and (flip or y != "Const"):
                        continue
                    p["tid"] = f"{op}-{names[0]}-{names[1]}"
                    p["strict"] = True
                    progs.append(p)
    powers = {"Zero": {"k": "Zero", "s": [2, 2]}, **{k: TWO[k] for k in ("Diag", "LT", "UT")},
              "Kr": {"k": "Kr", "l": TWO["Diag"], "r": TWO["Dense"]}}
    for x, a in powers.items():
        for n in (0, -1):
            progs.append({"tid": f"power-{x}-{n}", "strict": True, "evs": [
                {"e": "new", "t": a, "dt": "f8"},
                {"e": "call", "op": "power", "p": dict(P0, n=n), "args": [1]}]})
    work = tempfile.mkdtemp()
    tr = tla.drive(progs, work)
    known = []
    by = {p["tid"]: p for p in progs}
    for t, fails in sorted(tla.judge(tr, work, tla.Counts()), key=lambda z: z[0]["tid"]):
        if t["tid"].startswith("power"):
            cl = sorted({c for i, _, c in fails if i == 2})
            _, x, n = t["tid"].split("-", 2)
            if cl:
                known.append({"id": t["tid"], "property": "C06" if "value" in cl else "C15", "clauses": cl,
                              "what": f"power {n} of {x} keeps the zeros that its type implies, which should become one or infinite",
                              "program": {"evs": by[t["tid"]]["evs"]}})
            continue
        cl = sorted({c for i, _, c in fails if i == 3})
        op = t["tid"].split("-")[0]
        ev = t["evs"][2]
        if "honest" in cl and not {"value", "error"} & set(cl):
            known.append({
                "id": t["tid"], "property": "C15", "clauses": cl,
                "what": f"{op} of {t['tid'].split('-')[1]} and {t['tid'].split('-')[2]} yields parts that do not make up its "
                        "dense value (matrix shape of a structured operand not broadcast)",
                "program": {"evs": by[t["tid"]]["evs"]}})
        if {"value", "error"} & set(cl):
            known.append({
                "id": t["tid"], "property": "C02" if op in ("add", "sub") else "C03", "clauses": cl,
                "what": f"{op} of {t['tid'].split('-')[1]} and {t['tid'].split('-')[2]} does not broadcast the matrix shape of the structured operand"
                        + (f" ({ev['err']})" if ev["out"] == "err" else " (wrong value)"),
                "program": {"evs": by[t["tid"]]["evs"]}})
    path = os.path.join(ROOT, "known_findings.json")
    old = json.load(open(path)) if os.path.exists(path) else {"fixed": []}
    json.dump({"known": known, "fixed": old["fixed"]}, open(path, "w"), indent=1)
    print(len(progs), len(known))


main()
