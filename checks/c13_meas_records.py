"""C13: measurement-record lookups always point at the requested measurement."""
import itertools

import stim
import z3

from vk import cliff, params, rel, sym

LEVEL = "other"
EXPLANATION = (
    "The real models are driven through every history (up to the bound) of measurements in any basis over any ordered qubit lists, "
    "other operations and new_circuit; then meas_target is executed symbolically with an unbounded symbolic integer index. On every "
    "path the solver shows that an index of an existing measurement resolves to the record entry which that measurement has in the "
    "assembled circuit (read off the circuit itself) and that every other integer is rejected."
)
INDS = {"D1": 4, "Z1": 0, "X7": 2}
QS = list(INDS)
LISTS = [["D1"], ["Z1"], ["X7"], ["D1", "Z1"], ["Z1", "D1"], ["X7", "D1", "Z1"], ["Z1", "X7", "D1"], []]
OPS = ["measure", "measure_x", "measure_y", "measure_z"]


def make(name, flags):
    """flags: one bit per qubit, whether its outcomes have classical assignment errors."""
    from surface_sim import models as M

    src = params.Source(False, lambda qs: flags[QS.index(qs[0])] == "1" if qs and qs[0] in QS else True)
    c = getattr(M, name)
    return c(dict(INDS)) if name == "NoiselessModel" else c(src.setup, dict(INDS))


def play(m, history):
    """Runs the history; returns the qubits of the records of the circuit since the last new_circuit."""
    circ = stim.Circuit()
    for h in history:
        if h[0] == "new":
            m.new_circuit()
            circ = stim.Circuit()
        elif h[0] == "gate":
            circ += m.hadamard(h[1])
            circ += m.tick()
        else:
            circ += getattr(m, h[0])(h[1])
    inv = {i: q for q, i in INDS.items()}
    return [inv[t.value] for ins in cliff.flat(circ) if ins.name in cliff.MEAS for t in ins.targets_copy()]


def expected(recs, qubit, k):
    """Offset from the end of the record, or None when there is no such measurement."""
    mine = [i for i, q in enumerate(recs) if q == qubit]
    if -len(mine) <= k < len(mine):
        return mine[k] - len(recs)
    return None


def replay(case):
    try:
        m = make(case["model"], case["flags"])
        if case.get("pre"):
            play(m, case["pre"])
            m.new_circuit()
        recs = play(m, case["history"])
    except Exception as ex:
        if not rel.from_repo(ex):
            raise
        return f"raised {type(ex).__name__}: {ex}"
    want = expected(recs, case["qubit"], case["k"])
    try:
        t = m.meas_target(case["qubit"], case["k"])
        got = t.value if t.is_measurement_record_target else str(t)
    except Exception as ex:
        got = None
        if want is None and case["qubit"] in QS and not isinstance(ex, ValueError):
            return f"lookup ({case['qubit']}, {case['k']}) after {case['history']} fails with {ex!r} instead of being rejected"
    if got != want:
        return f"lookup ({case['qubit']}, {case['k']}) after {case['history']} gives {got} instead of {want}"
    return None


def one(ck, item):
    name, history, pre, flags = item
    ck.covers("models.model.Model.add_meas", "models.model.Model.meas_target", "models.model.Model.new_circuit",
              *[f"models.library.{name}.{o}" for o in OPS])
    base = dict(model=name, history=history, pre=pre, flags=flags)
    for qubit in [*QS, "Q9"]:
        ex = sym.Explorer()

        def body():
            try:
                m = make(name, flags)
                if pre:
                    play(m, pre)
                    m.new_circuit()
                recs = play(m, history)
            except Exception as e:
                if not rel.from_repo(e):
                    raise
                return None, None, e
            k = sym.SymInt("k")
            try:
                t = m.meas_target(qubit, k)
                return recs, (t.value if t.is_measurement_record_target else str(t)), None
            except Exception as e:
                return recs, None, e

        for recs, got, exc in ex.run(body):
            ck.paths += 1
            ck.programs += 1
            if recs is None:
                ck.violation({**base, "qubit": qubit, "k": 0}, f"{name}: history {history} raised {exc!r}")
                return
            k = z3.Int("k")
            mine = [i for i, q in enumerate(recs) if q == qubit]
            n = len(mine)
            if exc is not None:  # rejected: then no measurement has this index
                bad = ex.model(z3.And(k >= -n, k < n)) if n else None
                if qubit in QS and not isinstance(exc, ValueError):  # an accident, not a rejection
                    bad = ex.model()
                ck.obligations += 1
            else:  # every index of this path must be an existing measurement at exactly this place
                good = [z3.Or(k == j, k == j - n) for j, i in enumerate(mine) if i - len(recs) == got]
                bad = ex.model(z3.Not(z3.Or(good) if good else z3.BoolVal(False)))
                ck.obligations += 1
            if bad is None:
                ck.discharged += 1
                continue
            kv = bad.eval(k, model_completion=True).as_long()
            ck.violation({**base, "qubit": qubit, "k": kv}, f"{name}: lookup ({qubit}, {kv}) after {history}: {got if exc is None else exc!r}")


def histories(n):
    """All histories of n steps over the list alphabet, with one more step for new_circuit / a gate."""
    out = [[]]
    for i in range(n):
        out = [h + [[OPS[(i + len(h)) % 4 if j % 2 else (j // 2) % 4], l]] for h in out for j, l in enumerate(LISTS)]
    return out


def configs(ck):
    out = []
    for name in params.MODELS + ("DecoherenceNoiseModel", "ExperimentalNoiseModel"):
        n = 2 if not ck.thorough else 3
        if name == "NoiselessModel":
            n += 1
        for h in histories(n):
            out.append((name, h, None))
        for h in histories(2):
            out.append((name, [h[0], ["new"], h[1]], None))
            out.append((name, [h[0], ["gate", ["D1", "X7"]], h[1]], None))
            out.append((name, h[1:], h))
        out.append((name, [["new"]], None))
        out.append((name, [["measure", QS], ["new"], ["new"]], None))
        for op in OPS:
            out.append((name, [[op, ["X7", "Z1"]], [op, ["Z1", "D1"]], [op, QS[::-1]], [op, ["Z1"]]], None))
    allf = ["".join(f) for f in itertools.product("01", repeat=3)]
    res = [(*o, allf[(3 * n + n // 8) % 8]) for n, o in enumerate(out)]
    for name in params.MODELS + ("DecoherenceNoiseModel", "ExperimentalNoiseModel"):
        for op in OPS:
            for ls in (QS, QS[::-1], ["Z1", "X7", "D1"]):
                res += [(name, [[op, ls]], None, f) for f in allf]
                res += [(name, [[op, ls[:2]], [op, ls]], None, f) for f in allf if f.count("1") in (1, 2)]
    return res


def run(ck):
    it = configs(ck)
    ck.bounds = {"histories": len(it), "steps": "2..4", "qubits": 3, "index": "all integers",
                 "assignment errors": "every subset of the qubits"}
    ck.sample(it[0])
    ck.pmap(one, it)
