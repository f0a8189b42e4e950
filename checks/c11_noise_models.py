"""C11: each noisy operation is the ideal operation plus its specified noise channel."""
from fractions import Fraction
from itertools import permutations

import z3

from vk import events, params, pauli, rel, sym
from vk.noise import MEAS, MODELS, OPS, RESET, TWO, Real, expected, lam

LEVEL = "other"
EXPLANATION = (
    "Every operation of every noise model runs on every ordered list of up to three qubits (two pairs) with non-trivial indices, with "
    "a setup in which every parameter of every qubit and pair is its own symbolic real (T1, T2, durations, probabilities, bias "
    "factors) and every assignment-error flag a symbolic boolean. The produced circuit is read per qubit as ideal operations and, "
    "between them, composed Pauli channels; the solver shows for all parameter values that the operations are the named ones on the "
    "named qubits in order and that the channels before and after equal the ones of an independent table (eigenvalues on all Paulis; "
    "on the measured or prepared basis for measurement and reset noise)."
)

INDS = {"D1": 3, "Z2": 0, "X10": 7, "D12": 5}
class Src(params.Source):
    """Symbolic parameters with their physical ranges; or the given numbers."""

    def __init__(self, symbolic, flags, paulis, values=None):
        super().__init__(symbolic, lambda qs: flags[qs[0]], lambda qs: paulis)
        self.values, self.seen = values or {}, {}

    def value(self, param, *qubits):
        v = self._value(param, *qubits)
        n = params.name_of(param, qubits)
        if param not in ("assign_error_flag", "biased_pauli") and n not in self.seen:
            self.seen[n] = v
            if self.symbolic:
                ex = sym.Explorer.current
                if param in ("T1",) or param.startswith("duration"):
                    ex.assume(v > 0)
                elif param == "T2":
                    t1 = self.value("T1", *qubits)
                    ex.assume(v > 0)
                    ex.assume(v < 2 * t1)
                elif param == "biased_factor":
                    ex.assume(v > 0)
                else:
                    ex.assume(v >= 0)
                    ex.assume(v <= Fraction(3, 4))
        return v

    def _value(self, param, *qubits):
        n = params.name_of(param, qubits)
        if param == "biased_factor":
            return sym.SymReal(n) if self.symbolic else self.values.get(n, 0.25 + 100 * params.number(n))
        if not self.symbolic and n in self.values:
            return self.values[n]
        return super().value(param, *qubits)


def build(case, src):
    from surface_sim import models as M

    name = case["model"].split("-")[0]
    c = getattr(M, name)
    if name == "NoiselessModel":
        m = c(dict(INDS))
    elif name == "DecoherenceNoiseModel":
        m = c(src.setup, dict(INDS), symmetric_noise="asym" not in case["model"])
    else:
        m = c(src.setup, dict(INDS))
    qs = case["qubits"]
    arg = {"list": list, "tuple": tuple, "set": set, "dict": dict.fromkeys}[case["as"]](qs)
    order = list(arg)
    extra = []
    if case["op"] == "idle" and name in ("DecoherenceNoiseModel", "ExperimentalNoiseModel"):
        extra = [src.value("duration_test")]
    circ = getattr(m, case["op"])(arg, *extra)
    tgt = None
    if case["op"] in MEAS:
        tgt = [m.meas_target(q, -1).value for q in order]
    return m, circ, order, tgt


def compare(case, src, R, flags):
    """Yields (what, got, want) terms or (what, True, False) for a structural difference."""
    m, circ, order, tgt = build(case, src)
    inv = {i: q for q, i in INDS.items()}
    op = case["op"]
    evs = [e for st in events.steps(circ) for e in st if e.name != "I"]
    if circ.num_ticks:
        yield "the operation spans several time steps", True, False
    n = 2 if op in TWO else 1
    targets = [tuple(order[i:i + n]) for i in range(0, len(order), n)]
    owner = {q: k for k, t in enumerate(targets) for q in t}
    seqs = [[] for _ in targets]
    recs = []
    for e in evs:
        qs = [inv.get(q) for q in e.targets]
        ks = {owner.get(q) for q in qs}
        if len(ks) != 1 or None in ks:
            yield f"{e} acts on other qubits than requested", True, False
            return
        k = ks.pop()
        seqs[k].append((e, qs))
        if e.is_meas:
            recs.append(qs[0])
    if op in MEAS:
        if recs != order:
            yield f"outcomes are recorded for {recs} instead of {order}", True, False
            return
        if tgt != [k - len(order) for k in range(len(order))]:
            yield f"record lookups give {tgt}", True, False
    for target, seq in zip(targets, seqs):
        before, ideal, after, basis = expected(case["model"], op, case["pauli"], src, R, target)
        got = [[], []]
        seen = []
        for e, qs in seq:
            if e.is_noise:
                ch = pauli.probs(e.name, [R.read(a) for a in e.args])
                if ch is None:
                    yield f"unexpected noise {e}", True, False
                    return
                got[bool(seen)].append((tuple(target.index(q) for q in qs), ch))
            else:
                seen.append((e.name, tuple(qs), e.args))
        if ideal is None:
            if seen:
                yield f"{op} applies {seen}", True, False
                return
            got = [[], got[0] + got[1]]
        else:
            if len(seen) != 1 or seen[0][0] != ideal or (seen[0][1] != target and not (ideal in ("CZ", "SWAP") and set(seen[0][1]) == set(target))):
                yield f"{op} on {target} applies {seen}", True, False
                return
            if op in MEAS:
                noisy = case["model"] != "NoiselessModel" and case["model"] != "IncomingNoiseModel"
                q = target[0]
                want = R.of(src.value("assign_error_prob", q)) if noisy and flags(q) else R.const(0)
                have = R.read(seen[0][2][0]) if seen[0][2] else R.const(0)
                yield f"assignment error of {op} on {q}", have, want
        ons = [p for p in (pauli.ONE if n == 1 else pauli.TWO) if set(p) != {"I"}]
        for side, g, w in (("before", got[0], before), ("after", got[1], after)):
            if op in RESET and side == "before" and case["model"].split("-")[0] != "DecoherenceNoiseModel":
                continue  # erased by the reset
            for on in [basis] if basis else ons:
                yield f"noise {side} {op} on {target}, seen by {on}", lam(R, g, on), lam(R, w, on)


def replay(case):
    for values in (case.get("values") or {}, {}):
        try:
            src = Src(False, case["flags"], case["pauli"], values)
            for what, g, w in compare(case, src, Real(False), lambda q: case["flags"][q]):
                if g is True or abs(g - w) > 1e-9:
                    return f"{what}: {g} instead of {w}"
        except Exception as ex:
            if not rel.from_repo(ex):
                raise
            return f"raised {type(ex).__name__}: {ex}"
    return None


def one(ck, case):
    ck.covers(f"models.library.{case['model'].split('-')[0]}.{case['op']}", "models.model.Model.add_meas", "models.model.Model.meas_target",
              "models.util.biased_prefactors", "models.util.idle_error_probs", "models.util.grouper")
    R = Real(True)
    ex = sym.Explorer()
    box = {}

    def body():
        sym.reset_tokens()
        flags = {q: sym.fresh_bool(f"flag|{q}") for q in INDS}
        src = Src(True, flags, case["pauli"])
        box["src"] = src
        try:
            return list(compare(case, src, R, lambda q: bool(flags[q]))), None
        except Exception as exc:
            if not rel.from_repo(exc):
                raise
            return None, exc

    for res, exc in ex.run(body):
        ck.programs += 1
        src = box["src"]

        def concrete(m):
            flags = {q: bool(m and z3.is_true(m.eval(z3.Bool(f"flag|{q}"), model_completion=True))) for q in INDS}
            vals = {}
            if m is not None:
                for n in src.seen:
                    vals[n] = float(sym.model_value(m, z3.Real(n)))
            return {**case, "flags": flags, "values": vals}

        if exc is not None:
            ck.violation(concrete(ex.model()), f"valid request raised {type(exc).__name__}: {exc}")
            continue
        bad = [w for w, g, _ in res if g is True]
        if bad:
            ck.violation(concrete(ex.model()), f"{case['model']}: {bad[0]}")
            continue
        base = list(ex.solver.assertions())
        ts = [t for _, g, w in res for t in (g, w)]
        ts, facts = sym.unify_exp(ts, base)
        for k, (what, _, _) in enumerate(res):
            m = ck.refute(*base, *facts, ts[2 * k] != ts[2 * k + 1])
            if m is not None:
                ck.violation(concrete(m), f"{case['model']}: {what} differs from the specified one")
                break
    ck.paths += ex.paths


def configs(ck):
    out = []
    qs = list(INDS)
    for model in MODELS:
        for op in OPS:
            if model == "ExperimentalNoiseModel" and op in ("s_gate", "s_dag_gate"):
                continue
            if op in TWO:
                lists = [[], *permutations(qs, 2), *permutations(qs, 4)]
                lists = lists if ck.thorough else [l for k, l in enumerate(lists) if len(l) < 4 or k % 5 == 1]
            else:
                lists = [[], *permutations(qs, 1), *permutations(qs, 2), *permutations(qs, 3)]
                if op in MEAS and ck.thorough:
                    lists += permutations(qs, 4)
                if not ck.thorough:
                    lists = [l for k, l in enumerate(lists) if len(l) < 2 or k % 3 == 0]
            for k, l in enumerate(lists):
                paulis = "XYZ" if model == "BiasedCircuitNoiseModel" and (ck.thorough or len(l) <= 2) else "XYZ"[k % 3]
                for p in paulis:
                    kinds = ["list"]
                    if op not in TWO:
                        kinds.append(["tuple", "set", "dict"][k % 3])
                    for kind in kinds:
                        out.append({"model": model, "op": op, "qubits": list(l), "pauli": p, "as": kind})
    return out


def run(ck):
    it = configs(ck)
    ck.bounds = {"requests": len(it), "qubits per list": "0..3 (0..4 thorough), pairs 0..2", "parameters": "all real values in their range",
                 "flags": "all"}
    ck.assumptions.append("0 <= probabilities <= 3/4, T1 > 0, 0 < T2 < 2 T1, durations > 0, bias factor > 0; exact real arithmetic")
    ck.assumptions.append("lists without repeated qubits, given as list, tuple, set or dict (one-shot iterators are outside)")
    ck.sample(it[0])
    ck.pmap(one, it)
